From 3f57c8d9d8965b5859d7b695f17282d87ddfbe98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 001/114] fix: RFFT.result yields no zero snapshot if the
 source has no complete block

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..e3a3d7e 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -157,7 +157,7 @@ class RFFT(BaseSpectra, SpectraOut):
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
         fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
+        j = num - 1  # nothing is left over as long as no block was delivered
         for i, data in enumerate(self._get_source_data()):  # yields one block of time data
             j = i % num
             fftdata[j] = self._scale(
-- 
2.43.0


From 11595998a8638641103301f356306b9d36a97f30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 002/114] fix: FilterBank.result handles a last block that is
 shorter than num

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..5c4ad78 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1715,8 +1715,8 @@ class FilterBank(TimeOut):
         snumch = self.source.num_channels
         sos = self.sos
         zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
-        res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
+            res = zeros((block.shape[0], self.num_channels), dtype='float')
             for i in range(numbands):
                 res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
             yield res
-- 
2.43.0


From d5cc3e18b1d7a887da0916ed5b565ca77ac3bee6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 003/114] fix: Mixer and SourceMixer no longer change the data
 of their first source

---
 acoular/sources.py  | 2 +-
 acoular/tprocess.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..fabccf6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2316,7 +2316,7 @@ class SourceMixer(SamplesGenerator):
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
         for temp in self.sources[0].result(num):
-            temp *= weights[0]
+            temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
                 temp1 = next(g) * weights[j + 1]
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 5c4ad78..60e35ce 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1338,7 +1338,7 @@ class Mixer(TimeOut):
                     return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From c35daf584440cef25fdd0ecacd25c2772afb46ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 004/114] fix: TimeConvolve convolves with kernels longer than
 a block and with single kernels

---
 acoular/tprocess.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 60e35ce..fd2e015 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2036,9 +2036,9 @@ class TimeConvolve(TimeOut):
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
         Q = int(ceil(M / num))  # number of signal blocks
         R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
+        last_size = (L + M - 1) % num or num  # size of final block
 
-        idx = 0
+        kernel_blocks = self._kernel_blocks
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
         buff = zeros([2 * num, N])  # time-domain input buffer
         spec_sum = zeros([num + 1, N], dtype='complex128')
@@ -2049,16 +2049,16 @@ class TimeConvolve(TimeOut):
 
         # for very short signals, we are already done
         if R == 1:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
             yield irfft(spec_sum, axis=0)[num : last_size + num]
             return
 
         # stream processing of source signal
         for temp in signal_blocks:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             yield irfft(spec_sum, axis=0)[num:]
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
@@ -2067,34 +2067,37 @@ class TimeConvolve(TimeOut):
             buff[num : num + temp.shape[0]] = temp  # append new time-data
 
         for _ in range(R - Q):
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             yield irfft(spec_sum, axis=0)[num:]
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
                 axis=0,
             )  # shift input buffer to the left
 
-        _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-        spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+        _append_to_fdl(fdl, rfft(buff, axis=0))
+        spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
         # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
         yield irfft(spec_sum, axis=0)[num : last_size + num]
 
 
 @nb.jit(nopython=True, cache=True)
-def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
-    fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
+def _append_to_fdl(fdl, buff):  # pragma: no cover
+    # shift the frequency-domain delay line by one block, the newest block comes first
+    for i in range(fdl.shape[0] - 1, 0, -1):
+        fdl[i] = fdl[i - 1]
+    fdl[0] = buff
 
 
 @nb.jit(nopython=True, cache=True)
 def _spectral_sum(out, fdl, kb):  # pragma: no cover
-    P, B, N = kb.shape
+    P, B, N = fdl.shape
     for n in range(N):
+        k = n if kb.shape[2] > 1 else 0  # a single kernel applies to all channels
         for b in range(B):
             out[b, n] = 0
             for i in range(P):
-                out[b, n] += fdl[i, b, n] * kb[i, b, n]
+                out[b, n] += fdl[i, b, n] * kb[i, b, k]
 
     return out
 
-- 
2.43.0


From 83c40de77f3c38f23b411469f8a3f3655bf0e45a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 005/114] fix: TimeReverse keeps copies of the blocks of its
 source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index fd2e015..04ded3e 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1426,7 +1426,7 @@ class TimeReverse(TimeOut):
 
         """
         result_list = []
-        result_list.extend(self.source.result(num))
+        result_list.extend(block.copy() for block in self.source.result(num))
         temp = empty_like(result_list[0])
         h = result_list.pop()
         nsh = h.shape[0]
-- 
2.43.0


From 206eea873c0af48c5fbc17938bd53f151d7e5b5d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 006/114] fix: SampleSplitter buffers copies of the blocks of
 its source

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..bd98b9c 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -539,7 +539,7 @@ class SampleSplitter(InOut):
         self._source_generator_exist = True  # indicates full generator
 
     def _fill_block_buffers(self):
-        next_block = next(self._source_generator)
+        next_block = next(self._source_generator).copy()  # the source may reuse its block
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
-- 
2.43.0


From d811a1c0c960d9107355cd341e63e2001ec3d3f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 007/114] fix: dipole and line sources yield no empty last
 block

---
 acoular/sources.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index fabccf6..76d777c 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1346,8 +1346,8 @@ class PointSourceDipole(PointSource):
                     i = 0
             except IndexError:
                 break
-
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1574,7 +1574,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1703,8 +1704,8 @@ class LineSource(PointSource):
                     i = 0
             except IndexError:
                 break
-
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1944,7 +1945,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From 02c688e0c6bb49149a971619110eeb21893758f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 008/114] fix: TimeConvolve reports the number of samples it
 delivers

---
 acoular/tprocess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 04ded3e..f3b2d73 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1964,6 +1964,9 @@ class TimeConvolve(TimeOut):
     # it is applied to all channels.
     kernel = CArray(dtype=float, desc='Convolution kernel.')
 
+    # Number of samples in output. The full convolution is longer than the input.
+    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+
     _block_size = Int(desc='Block size')
 
     _kernel_blocks = Property(
@@ -1978,6 +1981,9 @@ class TimeConvolve(TimeOut):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        return self.source.num_samples + max(self.kernel.shape[0] - 1, 0)
+
     def _validate_kernel(self):
         # reshape kernel for broadcasting
         if self.kernel.ndim == 1:
-- 
2.43.0


From 21a5632d288b06c558fdab5e94d28a10746e4f5e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 009/114] fix: Average.num_samples is the number of complete
 averages

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index bd98b9c..ff4ff9b 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -147,7 +147,7 @@ class Average(InOut):
     @cached_property
     def _get_num_samples(self):
         if self.source:
-            return self.source.num_samples / self.num_per_average
+            return self.source.num_samples // self.num_per_average
         return None
 
     def result(self, num):
-- 
2.43.0


From 79b580f94524d15a8d53c108ebc99b3b99955541 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 010/114] fix: spatial weighting 'power' gives one weight per
 channel (numpy 2 unique)

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..1b9e092 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -82,7 +82,7 @@ def const_power_weight(bf):
     bins *= bins
     weights = sqrt((bins[1:] - bins[:-1]) / count)
     weights /= weights.mean()
-    return weights[ind]
+    return weights[ind.ravel()]
 
 
 # possible choices for spatial weights
-- 
2.43.0


From e2f66ad9e02fe678723b5574bcab7dfaa6674b72 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 011/114] fix: time beamformers apply the spatial weights once
 to overlapping samples

---
 acoular/tbeamform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 1b9e092..b020a62 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -171,7 +171,7 @@ class BeamformerTime(TimeOut):
             dtype=fdtype,
         )
         for p_res in buffer.result(num):
-            p_res *= weights
+            p_res = p_res * weights  # not in-place, consecutive buffer blocks overlap
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
                 n_index = arange(0, num + 1)[:, newaxis]
@@ -423,7 +423,8 @@ class BeamformerTimeTraj(BeamformerTime):
 
             try:
                 time_block = next(buffered_result)
-                time_block *= weights
+                # not in-place, consecutive buffer blocks overlap
+                time_block = (time_block * weights).astype(fdtype)
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-- 
2.43.0


From 6d6b8b6b473e12850cc624d8c0d058de8da0fb5a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 012/114] fix: BeamformerTime stops if fewer samples than the
 maximum delay are left

---
 acoular/tbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index b020a62..1a75109 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -174,6 +174,8 @@ class BeamformerTime(TimeOut):
             p_res = p_res * weights  # not in-place, consecutive buffer blocks overlap
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
+                if num < 1:  # not enough samples left
+                    break
                 n_index = arange(0, num + 1)[:, newaxis]
             # init step
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
-- 
2.43.0


From 4ebb4bb29630e56d214984ce00b8dbc287337082 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 013/114] fix: SteeringVector with reference distance zero uses
 the distances from the origin

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..a8468f2 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -208,7 +208,7 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
-- 
2.43.0


From 9d63d249e826c2e2997f5083ea67b67a3ed0c6af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 014/114] fix: the last frequency of a lazy beamforming result
 is calculated for index -1

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a8468f2..3f00c23 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -293,7 +293,7 @@ class LazyBfResult:
         # 'intelligent' [] operator checks if results are available and triggers calculation
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+            sl = slice(sl, sl + 1 or None)  # -1 means the last one
         # indices which are missing
         missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
         # calc if needed
-- 
2.43.0


From 8f38c93543450b985fb3514436ba261dc069f127 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 015/114] fix: SteeringVector.transfer accepts a list of grid
 indices

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 3f00c23..fed3e44 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -247,7 +247,7 @@ class SteeringVector(HasStrictTraits):
 
         if ind is None:
             trans = calcTransfer(self.r0, self.rm, array(2 * pi * f / self.env.c))
-        elif not isinstance(ind, ndarray):
+        elif isscalar(ind):
             trans = calcTransfer(self.r0[ind], self.rm[ind, :][newaxis], array(2 * pi * f / self.env.c))  # [0, :]
         else:
             trans = calcTransfer(self.r0[ind], self.rm[ind, :], array(2 * pi * f / self.env.c))
-- 
2.43.0


From 25d9ae0757005017b8d26098c4ab66631380cad4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 016/114] fix: convective amplification for momentarily resting
 trajectories

---
 acoular/tbeamform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 1a75109..c77b326 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -42,7 +42,6 @@ from numpy import (
     where,
     zeros,
 )
-from scipy.linalg import norm
 from traits.api import Bool, CArray, Enum, Float, Instance, Int, List, Map, Property, Range, cached_property
 
 from .base import SamplesGenerator, TimeOut
@@ -344,11 +343,10 @@ class BeamformerTimeTraj(BeamformerTime):
 
     def _get_macostheta(self, g1, tpos, rm):
         vvec = array(g1)  # velocity vector
-        ma = norm(vvec) / self.steer.env.c  # machnumber
-        fdv = (vvec / sqrt((vvec * vvec).sum()))[:, newaxis]  # unit vecor velocity
+        ma = vvec[:, newaxis] / self.steer.env.c  # machnumber vector, may be zero
         mpos = self.steer.mics.pos[:, newaxis, :]
         rmv = tpos[:, :, newaxis] - mpos
-        return (ma * sum(rmv.reshape((3, -1)) * fdv, 0) / rm.reshape(-1)).reshape(rm.shape)
+        return (sum(rmv.reshape((3, -1)) * ma, 0) / rm.reshape(-1)).reshape(rm.shape)
 
     def get_r0(self, tpos):
         if isscalar(self.steer.ref) and self.steer.ref > 0:
-- 
2.43.0


From 8e4482a2fc10bfea7076a2b136a5237e8e096f6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 017/114] fix: BeamformerTimeTraj uses the reference point of
 the steering vector

---
 acoular/tbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index c77b326..b600c56 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -351,7 +351,9 @@ class BeamformerTimeTraj(BeamformerTime):
     def get_r0(self, tpos):
         if isscalar(self.steer.ref) and self.steer.ref > 0:
             return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
-        return self.steer.env._r(tpos)
+        if isscalar(self.steer.ref):
+            return self.steer.env._r(tpos)
+        return self.steer.env._r(tpos, self.steer.ref[:, newaxis])
 
     def result(self, num=2048):
         """Python generator that yields the time-domain beamformer output.
-- 
2.43.0


From 22c4dc18e11843c8fc8be478751f5b1bd02bbf65 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 018/114] fix: PointSourceConvolve reports the number of
 samples it delivers

---
 acoular/sources.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 76d777c..8bc442a 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2408,6 +2408,9 @@ class PointSourceConvolve(PointSource):
     #: Upsampling factor for internal use. Default is ``None``.
     up = Enum(None, desc='upsampling factor')
 
+    #: Total number of samples of the convolved signal, including the tail of the kernel. (read-only)
+    num_samples = Property(depends_on=['signal.num_samples', 'kernel'])
+
     #: Unique identifier for the current state of the source,
     #: based on microphone geometry, input signal, source location, and kernel. (read-only)
     digest = Property(depends_on=['mics.digest', 'signal.digest', 'loc', 'kernel'])
@@ -2416,6 +2419,9 @@ class PointSourceConvolve(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        return self.signal.num_samples + max(self.kernel.shape[0] - 1, 0)
+
     def result(self, num=128):
         """
         Generate the convolved signal at microphones in blocks.
@@ -2447,7 +2453,7 @@ class PointSourceConvolve(PointSource):
         source = TimeSamples(
             data=data,
             sample_freq=self.sample_freq,
-            num_samples=self.num_samples,
+            num_samples=self.signal.num_samples,
             num_channels=self.mics.num_mics,
         )
         time_convolve = TimeConvolve(
-- 
2.43.0


From ef1dc2925f8c609a1a6ff595d09f16ed29a1e5da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 019/114] fix: BeamformerTimeTraj yields no empty last block

---
 acoular/tbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index b600c56..9499387 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -431,6 +431,8 @@ class BeamformerTimeTraj(BeamformerTime):
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
                 num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                if num == 0:  # not a single sample left
+                    break
                 n_index = arange(num, dtype=idtype)[:, newaxis]
                 flag = False
             # init step
-- 
2.43.0


From 8090176cd3a790c0ec11ce1522017d9df061bce5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 020/114] fix: BeamformerTimeTraj delivers the same samples for
 every block size

---
 acoular/tbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 9499387..2cd9ceb 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -420,8 +420,8 @@ class BeamformerTimeTraj(BeamformerTime):
             else:
                 steer_func(blockrm, blockr0, amp)
             _delays(blockrm, c, d_interp2, d_index)
-            max_sample_delay = (d_index.max((1, 2)) + 2).max()  # + because of interpolation
-            buffer.result_num = num + max_sample_delay
+            # number of samples needed for this block, + 2 because of interpolation
+            buffer.result_num = (d_index.max((1, 2)) + arange(num)).max() + 2
 
             try:
                 time_block = next(buffered_result)
-- 
2.43.0


From 2ce53bc2d77a6c12d7172c2e62916b36a962e2d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 021/114] fix: GeneralFlowEnvironment does not reuse ray
 interpolators of another configuration

---
 acoular/environments.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..d1b146f 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -819,7 +819,7 @@ class GeneralFlowEnvironment(Environment):
 
     #: A unique identifier based on the environment properties. (read-only)
     digest = Property(
-        depends_on=['c', 'ff.digest', 'N', 'Om'],
+        depends_on=['c', 'ff.digest', 'N', 'Om', 'roi'],
     )
 
     #: A dictionary for storing precomputed interpolators to optimize repeated calculations.
@@ -837,15 +837,14 @@ class GeneralFlowEnvironment(Environment):
             mpos = array((0, 0, 0), dtype=float32)[:, newaxis]
 
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
+        roi = gpos if self.roi is None else self.roi
         for micnum, x0 in enumerate(mpos.T):
-            key = x0.tobytes()  # make array hashable
+            # hashable key of everything the interpolator depends on
+            key = (self.digest, roi.tobytes(), x0.tobytes())
             try:
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From bfa2855d8c0d58a7a8e21803100c45b1c791091f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 022/114] fix: Trajectory.traj accepts an end time of zero

---
 acoular/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/trajectory.py b/acoular/trajectory.py
index fca6b6f..745922e 100644
--- a/acoular/trajectory.py
+++ b/acoular/trajectory.py
@@ -187,10 +187,10 @@ class Trajectory(HasStrictTraits):
         (np.float64(1.0), np.float64(0.0), np.float64(0.0))
         (np.float64(1.5), np.float64(0.375), np.float64(0.0))
         """
-        if not delta_t:
+        if delta_t is None:
             delta_t = t_start
             t_start, t_end = self.interval
-        if not t_end:
+        if t_end is None:
             t_end = self.interval[1]
         # all locations are fetched in one go because that is much faster further improvement could
         # be possible if interpolated locations are fetched in blocks
-- 
2.43.0


From 0d5392ef145272a0c8ab076cb19e0785d35e1560 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 023/114] fix: digest tells apart adjacent values and all
 elements of arrays

---
 acoular/internal.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..f334ace 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -4,6 +4,8 @@
 
 from hashlib import md5
 
+from numpy import ascontiguousarray, ndarray
+
 
 def digest(obj, name='digest'):
     str_ = [str(obj.__class__).encode('UTF-8')]
@@ -12,10 +14,16 @@ def digest(obj, name='digest'):
         try:
             for i in do_.split('.'):
                 vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
+            if isinstance(vobj, ndarray) and not vobj.dtype.hasobject:
+                # str() would round and abbreviate the values
+                str_.append(str((vobj.dtype, vobj.shape)).encode('UTF-8'))
+                str_.append(ascontiguousarray(vobj).tobytes())
+            else:
+                str_.append(str(vobj).encode('UTF-8'))
         except:  # noqa: E722
             pass
-    return '_' + md5(b''.join(str_)).hexdigest()
+    # a separator keeps adjacent values apart
+    return '_' + md5(b'\x00'.join(str_)).hexdigest()
 
 
 def ldigest(obj_list):
-- 
2.43.0


From 480e0b9cc7a139255a481747d5ba631359d9e207 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 024/114] fix: RectGrid.index and RectGrid3D.index return the
 nearest point of the grid

---
 acoular/grids.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 78ae40b..babc1b4 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -477,8 +477,9 @@ class RectGrid(Grid):
         if y < self.y_min or y > self.y_max:
             msg = 'y-value out of range'
             raise ValueError(msg)
-        xi = int((x - self.x_min) / self.increment + 0.5)
-        yi = int((y - self.y_min) / self.increment + 0.5)
+        # the actual step size, which differs from increment if that does not divide the extent
+        xi = int((x - self.x_min) / (self.x_max - self.x_min) * (self.nxsteps - 1) + 0.5) if self.nxsteps > 1 else 0
+        yi = int((y - self.y_min) / (self.y_max - self.y_min) * (self.nysteps - 1) + 0.5) if self.nysteps > 1 else 0
         return xi, yi
 
     def indices(self, *r):
@@ -704,13 +705,10 @@ class RectGrid3D(RectGrid):
         if z < self.z_min or z > self.z_max:
             msg = f'z-value out of range {z:f} ({self.z_min:f}, {self.z_max:f})'
             raise ValueError(msg)
-        if isscalar(self.increment):
-            incx = incy = incz = self.increment
-        else:
-            incx, incy, incz = self.increment
-        xi = int(round((x - self.x_min) / incx))
-        yi = int(round((y - self.y_min) / incy))
-        zi = int(round((z - self.z_min) / incz))
+        # the actual step size, which differs from increment if that does not divide the extent
+        xi = int(round((x - self.x_min) / (self.x_max - self.x_min) * (self.nxsteps - 1))) if self.nxsteps > 1 else 0
+        yi = int(round((y - self.y_min) / (self.y_max - self.y_min) * (self.nysteps - 1))) if self.nysteps > 1 else 0
+        zi = int(round((z - self.z_min) / (self.z_max - self.z_min) * (self.nzsteps - 1))) if self.nzsteps > 1 else 0
         return xi, yi, zi
 
     def indices(self, x1, y1, z1, x2, y2, z2):
-- 
2.43.0


From 4b4fec9c5ed9f94576495cc31ace37c218b6c530 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 025/114] fix: LineGrid with a single point, shape of LineGrid
 and MergeGrid is a tuple

---
 acoular/grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index babc1b4..02cacd0 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -993,11 +993,11 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
-        dist = self.length / (self.num_points - 1)
+        dist = self.length / max(self.num_points - 1, 1)
         loc = array(self.loc, dtype=float).reshape((3, 1))
         direc_n = array(self.direction) / norm(self.direction)
         pos = zeros((self.num_points, 3))
@@ -1064,7 +1064,7 @@ class MergeGrid(Grid):
 
     @property_depends_on(['digest'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['digest'])
     def _get_subgrids(self):
-- 
2.43.0


From 2ec7456fac5a6f46a3d461e7da96b3facfaccc9d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 026/114] fix: MergeGrid names subgrids in the order of its
 points, digest is reproducible

---
 acoular/grids.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 02cacd0..2f48990 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1048,7 +1048,7 @@ class MergeGrid(Grid):
     subgrids = Property(desc='names of subgrids for each point')
 
     #: A unique identifier for the grid, based on its properties. (read-only)
-    digest = Property(depends_on=['grids', 'grid_digest'])
+    digest = Property(depends_on=['grid_digest'])
 
     @cached_property
     def _get_digest(self):
@@ -1071,14 +1071,18 @@ class MergeGrid(Grid):
         subgrids = zeros((1, 0), dtype=str)
         for grid in self.grids:
             subgrids = append(subgrids, tile(grid.__class__.__name__ + grid.digest, grid.size))
-        return subgrids[:, newaxis].T
+        # one name for each of the remaining points, in the order of pos
+        return subgrids[self._unique_pos()[1]][:, newaxis].T
 
     @property_depends_on(['digest'])
     def _get_pos(self):
+        return self._unique_pos()[0]
+
+    def _unique_pos(self):
         bpos = zeros((3, 0))
         for grid in self.grids:
             bpos = append(bpos, grid.pos, axis=1)
-        return unique(bpos, axis=1)
+        return unique(bpos, axis=1, return_index=True)
 
 
 class Sector(ABCHasStrictTraits):
-- 
2.43.0


From 994db0d73541240bd3b9a08062c1239069d539c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 027/114] fix: sectors fall back to the grid point nearest to
 their center

---
 acoular/grids.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 2f48990..8d9e847 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1336,7 +1336,8 @@ class RectSector3D(RectSector):
         if ~inds.any() and self.default_nearest:
             x = (xmin + xmax) / 2.0
             y = (ymin + ymax) / 2.0
-            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
+            z = (zmin + zmax) / 2.0
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2 + (pos[2, :] - z) ** 2
             inds[argmin(dr2)] = True
 
         return inds.astype(bool)
@@ -1468,7 +1469,8 @@ class PolySector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)
+            center = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = ((pos[:2, :] - center[:, newaxis]) ** 2).sum(0)
             inds[argmin(dr2)] = True
 
         return inds
@@ -1526,7 +1528,8 @@ class ConvexSector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            center = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            dr2 = ((pos[:2, :] - center[:, newaxis]) ** 2).sum(0)
             inds[argmin(dr2)] = True
 
         return inds
-- 
2.43.0


From 2980833368beb66f21db62f6c86644cc670125ac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 028/114] fix: in_hull without border keeps all points inside

---
 acoular/grids.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 8d9e847..b7ee730 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -38,6 +38,7 @@ from numpy import (
     asarray,
     concatenate,
     copysign,
+    dot,
     fabs,
     inf,
     isscalar,
@@ -56,7 +57,7 @@ from numpy import (
 from scipy.linalg import norm
 
 # from matplotlib.path import Path
-from scipy.spatial import Delaunay
+from scipy.spatial import ConvexHull, Delaunay
 from traits.api import (
     ABCHasStrictTraits,
     Bool,
@@ -131,7 +132,9 @@ def in_hull(p, hull, border=True, tol=0):
 
     if border:
         return hull.find_simplex(p, tol=tol) >= 0
-    return hull.find_simplex(p, tol=tol) > 0
+    # points inside keep a distance from all facets of the hull
+    equations = ConvexHull(hull.points).equations
+    return (dot(p, equations[:, :-1].T) + equations[:, -1] < -tol).all(axis=1)
 
 
 def _det(xvert, yvert):
-- 
2.43.0


From 46fcdfa4db3928f5a982603c592bde814ed70aaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 029/114] fix: RectGrid.indices finds points at the rounded
 upper border

---
 acoular/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index b7ee730..4c36ea1 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -513,7 +513,7 @@ class RectGrid(Grid):
             # array with true/false entries
             inds = dr2 <= r[2] ** 2
             for np in arange(self.size)[inds]:  # np -- points in x2-circle
-                xi, yi = self.index(xpos[0, np], xpos[1, np])
+                xi, yi = divmod(np, self.nysteps)
                 xis += [xi]
                 yis += [yi]
             if not (xis and yis):  # if no points in circle, take nearest one
@@ -534,7 +534,7 @@ class RectGrid(Grid):
         dists = poly.is_inside(xpos[0, :], xpos[1, :])
         inds = dists >= 0
         for np in arange(self.size)[inds]:  # np -- points in x2-circle
-            xi, yi = self.index(xpos[0, np], xpos[1, np])
+            xi, yi = divmod(np, self.nysteps)
             xis += [xi]
             yis += [yi]
         if not (xis and yis):  # if no points inside, take nearest to center
-- 
2.43.0


From f076ffdfc9c6b464f7323c8505262663f26946c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 030/114] fix: digest of TimeSamples covers the complete data
 array and follows its changes

---
 acoular/sources.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 8bc442a..5952148 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -27,6 +27,7 @@ Measured multichannel data management and simulation of acoustic sources.
 # imports from other packages
 
 import contextlib
+from hashlib import md5
 from os import path
 from warnings import warn
 
@@ -36,6 +37,7 @@ from numpy import (
     arange,
     arctan2,
     array,
+    ascontiguousarray,
     ceil,
     complex128,
     cross,
@@ -43,6 +45,7 @@ from numpy import (
     empty,
     int64,
     mod,
+    ndarray,
     newaxis,
     ones,
     pi,
@@ -396,8 +399,8 @@ class TimeSamples(SamplesGenerator):
     #: Metadata loaded from the HDF5 file, if available.
     metadata = Dict(desc='metadata contained in .h5 file')
 
-    # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    # Checksum over the data array, or over the first data entries of all channels of a file
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
@@ -405,6 +408,8 @@ class TimeSamples(SamplesGenerator):
     )
 
     def _get__datachecksum(self):
+        if isinstance(self.data, ndarray):
+            return md5(ascontiguousarray(self.data)).hexdigest()
         return self.data[0, :].sum()
 
     @cached_property
-- 
2.43.0


From d330174a0f9d6a99fce43b6b95fd2d6c6cfea9d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 031/114] fix: TimeSamples loads a file of the same name from
 another folder

---
 acoular/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 5952148..8697a70 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -420,7 +420,7 @@ class TimeSamples(SamplesGenerator):
     def _get_basename(self):
         return get_file_basename(self.file)
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if self.h5f is not None:
@@ -638,7 +638,7 @@ class MaskedTimeSamples(TimeSamples):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
         return sli[1] - sli[0]
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if not path.isfile(self.file):
-- 
2.43.0


From 1c3054ec7eb04e1fb6e1e1d06c19b3d7323459fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 032/114] fix: digests of MaskedTimeSamples and Calib cover all
 their parameters

---
 acoular/calib.py   | 2 +-
 acoular/sources.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..6ac37ba 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -98,7 +98,7 @@ class Calib(InOut):
     channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels'])
 
     @on_trait_change('data')
     def set_num_mics(self):
diff --git a/acoular/sources.py b/acoular/sources.py
index 8697a70..31b8148 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -614,7 +614,9 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(
+        depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum', 'sample_freq']
+    )
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 1ef2e607cebb123a4e029f19bb935a439c55907c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 033/114] fix: number of masked samples is not negative for an
 empty selection

---
 acoular/sources.py  | 2 +-
 acoular/tprocess.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 31b8148..b6f04bb 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -638,7 +638,7 @@ class MaskedTimeSamples(TimeSamples):
     @cached_property
     def _get_num_samples(self):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        return sli[1] - sli[0]
+        return max(sli[1] - sli[0], 0)
 
     @on_trait_change('file')
     def _load_data(self):
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index f3b2d73..1a3aea4 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -194,7 +194,7 @@ class MaskedTimeOut(TimeOut):
     @cached_property
     def _get_num_samples(self):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        return sli[1] - sli[0]
+        return max(sli[1] - sli[0], 0)
 
     def result(self, num):
         """Python generator that yields the output block-wise.
-- 
2.43.0


From 55a8b26207ea65163d1c888801bff6f33347ed43 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 034/114] fix: WriteWAV: no division by zero for silent
 signals, no deprecated tostring()

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 1a3aea4..17f7609 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1831,9 +1831,9 @@ class WriteWAV(TimeOut):
             ind = array(self.channels)
             for data in self.source.result(1024):
                 mx = max(abs(data[:, ind]).max(), mx)
-            scale = 0.9 * 2**15 / mx
+            scale = 0.9 * 2**15 / mx if mx > 0 else 0.0
             for data in self.source.result(1024):
-                wf.writeframesraw(array(data[:, ind] * scale, dtype=int16).tostring())
+                wf.writeframesraw(array(data[:, ind] * scale, dtype=int16).tobytes())
 
     def result(self, num):
         msg = 'result method not implemented yet! Data from source will be passed without transformation.'
-- 
2.43.0


From c3eaf9df18a5776793ce893d500134abe8c882d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 035/114] fix: WriteH5 closes its file also if the run is
 abandoned

---
 acoular/tprocess.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 17f7609..c4a4117 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1931,23 +1931,25 @@ class WriteH5(TimeOut):
         scount = 0
         stotal = self.num_samples_write
         source_gen = self.source.result(num)
-        while self.write_flag:
-            sleft = stotal - scount
-            if stotal != -1 and sleft > 0:
-                anz = min(num, sleft)
-            elif stotal == -1:
-                anz = num
-            else:
-                break
-            try:
-                data = next(source_gen)
-            except StopIteration:
-                break
-            f5h.append_data(ac, data[:anz])
-            f5h.flush()
-            yield data
-            scount += anz
-        f5h.close()
+        try:
+            while self.write_flag:
+                sleft = stotal - scount
+                if stotal != -1 and sleft > 0:
+                    anz = min(num, sleft)
+                elif stotal == -1:
+                    anz = num
+                else:
+                    break
+                try:
+                    data = next(source_gen)
+                except StopIteration:
+                    break
+                f5h.append_data(ac, data[:anz])
+                f5h.flush()
+                yield data
+                scount += anz
+        finally:
+            f5h.close()
 
 
 class TimeConvolve(TimeOut):
-- 
2.43.0


From 6f05302e89050ebb8fdd56d17406967460f7a5c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 036/114] fix: export_mpos escapes the array name

---
 acoular/microphones.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/microphones.py b/acoular/microphones.py
index d51ca00..7640e84 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -13,6 +13,7 @@ Implements support for array microphone arrangements.
 # imports from other packages
 import xml.dom.minidom
 from pathlib import Path
+from xml.sax.saxutils import quoteattr
 
 from numpy import array, average
 from scipy.spatial.distance import cdist
@@ -254,7 +255,7 @@ class MicGeom(HasStrictTraits):
         filepath = Path(filename)
         basename = filepath.stem
         with filepath.open('w', encoding='utf-8') as f:
-            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name="{basename}">\n')
+            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name={quoteattr(basename)}>\n')
             for i in range(self.pos.shape[-1]):
                 f.write(
                     f'  <pos Name="Point {i+1}" x="{self.pos[0, i]}" y="{self.pos[1, i]}" z="{self.pos[2, i]}"/>\n',
-- 
2.43.0


From e7217d797e0bc3f61388587cc0a3717244fa9bf9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 037/114] fix: H5FileTables.get_child_nodes lists groups, too

---
 acoular/h5files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/h5files.py b/acoular/h5files.py
index a91e65f..7c6cc62 100644
--- a/acoular/h5files.py
+++ b/acoular/h5files.py
@@ -87,7 +87,7 @@ if config.have_tables:
 
         def get_child_nodes(self, nodename):
             for childnode in self.list_nodes(nodename):
-                yield (childnode.name, childnode)
+                yield (childnode._v_name, childnode)  # noqa: SLF001
 
         def node_to_dict(self, nodename):
             """Recursively convert an HDF5 node to a dictionary."""
-- 
2.43.0


From 2404bec33cd2944caf0ebd5bb5e872e301c6ecf5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 038/114] fix: PointSpreadFunction calculates all requested
 points in modes 'single' and 'block'

---
 acoular/fbeamform.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index fed3e44..ba915a8 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -58,7 +58,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -1088,13 +1087,10 @@ class PointSpreadFunction(HasStrictTraits):
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
+        grid_indices = self.grid_indices if self.grid_indices.size else arange(self.steer.grid.size)
         if self.calcmode != 'full':
-            # calc_ind has the form [True, True, False, True], except
-            # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
-
-            # get indices which have the value True = not yet calculated
-            g_ind_calc = self.grid_indices[calc_ind]
+            # get indices which are not yet calculated
+            g_ind_calc = grid_indices[gp[:][grid_indices] == 0]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-- 
2.43.0


From 694bd0050cc36d3b513166364a0f3cedc678a120 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 039/114] fix: PointSpreadFunction marks points as calculated
 only after the calculation

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index ba915a8..2632949 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1097,8 +1097,8 @@ class PointSpreadFunction(HasStrictTraits):
                 ac[:, ind] = self._psf_call([ind])[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
+            gp[:] = 1
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-- 
2.43.0


From 9f4a7f18f64552ea806f9d530939ac395e0e10a1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 040/114] fix: PointSpreadFunction with default grid_indices
 follows changes of the grid

---
 acoular/fbeamform.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 2632949..94860da 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1051,15 +1051,14 @@ class PointSpreadFunction(HasStrictTraits):
         The point spread function is either loaded or calculated.
         """
         gs = self.steer.grid.size
-        if not self.grid_indices.size:
-            self.grid_indices = arange(gs)
+        grid_indices = self.grid_indices if self.grid_indices.size else arange(gs)
 
         if config.global_caching != 'none':
             #            print("get filecache..")
             (ac, gp) = self._get_filecache()
             if ac and gp:
                 #                print("cached data existent")
-                if not gp[:][self.grid_indices].all():
+                if not gp[:][grid_indices].all():
                     #                    print("calculate missing results")
                     if self.calcmode == 'readonly':
                         msg = "Cannot calculate missing PSF (points) in 'readonly' mode."
@@ -1067,13 +1066,13 @@ class PointSpreadFunction(HasStrictTraits):
                     if config.global_caching == 'readonly':
                         (ac, gp) = (ac[:], gp[:])
                         self.calc_psf(ac, gp)
-                        return ac[:, self.grid_indices]
+                        return ac[:, grid_indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
+                    return ac[:, grid_indices]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                return ac[:, grid_indices]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1083,7 +1082,7 @@ class PointSpreadFunction(HasStrictTraits):
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
             self.calc_psf(ac, gp)
-        return ac[:, self.grid_indices]
+        return ac[:, grid_indices]
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
-- 
2.43.0


From a356da1e401e49afbb95ac6e5edb2a549a983fb8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 041/114] fix: PSFs for frequencies that differ by less than
 0.01 Hz share a cache node

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 94860da..8880647 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1018,7 +1018,8 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        # all digits, because different frequencies must not share a node
+        nodename = f'Hz_{self.freq}'.replace('.', '_').replace('-', 'm').replace('+', 'p')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
-- 
2.43.0


From 0b7aa603d8d2968a863d1732a366c25151d3223f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 042/114] fix: PointSpreadFunction reads cached points in any
 order

---
 acoular/fbeamform.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 8880647..5287971 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1070,10 +1070,9 @@ class PointSpreadFunction(HasStrictTraits):
                         return ac[:, grid_indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, grid_indices]
-                #                else:
-                #                    print("cached results are complete! return.")
-                return ac[:, grid_indices]
+                # h5 files can only be read at unique indices in increasing order
+                cols, order = unique(grid_indices, return_inverse=True)
+                return ac[:, cols][:, order]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
-- 
2.43.0


From 4d5776018d9a09866323e4f42654ae12f94df734 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 043/114] fix: SamplesBuffer can hold exactly one block of the
 source

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index ff4ff9b..a2793e9 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -832,7 +832,7 @@ class SamplesBuffer(InOut):
 
     def _write_to_buffer(self, data):
         ns = data.shape[0]
-        self._buffer[0 : (self.length - ns)] = self._buffer[-(self.length - ns) :]
+        self._buffer[0 : (self.length - ns)] = self._buffer[ns:]
         self._buffer[-ns:, :] = data.astype(self.dtype)
         self._index -= ns
 
-- 
2.43.0


From 0083e3eb1ff3c9dd5837118c8193a48e560da8b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 044/114] fix: SampleSplitter detects overflow of buffers with
 individual size

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index a2793e9..099ed94 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -525,7 +525,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
-- 
2.43.0


From 2e637f84963bbfb7e731890cf729ec9b2ac2b57a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 045/114] fix: objects can be removed from a SampleSplitter
 while others still read

---
 acoular/process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 099ed94..3ba6044 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -655,7 +655,6 @@ class SampleSplitter(InOut):
         """
         calling_obj = currentframe().f_back.f_locals['self']
         self._assert_obj_registered(calling_obj)
-        objs_to_inspect = self._get_objs_to_inspect()
 
         if not self._source_generator_exist:
             self._create_source_generator(num)
@@ -664,7 +663,7 @@ class SampleSplitter(InOut):
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                self._inspect_buffer_levels(objs_to_inspect)
+                self._inspect_buffer_levels(self._get_objs_to_inspect())
                 try:
                     self._fill_block_buffers()
                 except StopIteration:
-- 
2.43.0


From 385fcbbecda2fcc47a69dc089ede3f61b1130c31 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 046/114] fix: buffer_size of a SampleSplitter can be changed
 after registration

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 3ba6044..9566a8b 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -544,7 +544,7 @@ class SampleSplitter(InOut):
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
-        for obj in self.block_buffer:
+        for obj in list(self.block_buffer):
             self._remove_block_buffer(obj)
             self._create_block_buffer(obj)
 
-- 
2.43.0


From 4a502b5797cd8c0bcd26c2b7372ffc9626ead428 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 047/114] fix: SampleSplitter loses or reorders blocks if
 consumers run in threads

---
 acoular/process.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 9566a8b..05bbb4e 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -57,7 +57,7 @@ class LockedGenerator:
 
     def __init__(self, it):
         self.it = it
-        self.lock = threading.Lock()
+        self.lock = threading.RLock()
 
     def __next__(self):
         """Fetch the next item from the iterator or generator in a thread-safe manner."""
@@ -496,6 +496,9 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # Lock for the start of the source generator, shared by all splitters
+    _start_lock = threading.Lock()
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -656,19 +659,24 @@ class SampleSplitter(InOut):
         calling_obj = currentframe().f_back.f_locals['self']
         self._assert_obj_registered(calling_obj)
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
+        with self._start_lock:  # only one of the consumers starts the source
+            if not self._source_generator_exist:
+                self._create_source_generator(num)
 
         while not self._buffer_overflow:
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                self._inspect_buffer_levels(self._get_objs_to_inspect())
-                try:
-                    self._fill_block_buffers()
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
+                # every block is fetched and distributed by one consumer at a time
+                with self._source_generator.lock:
+                    if self.block_buffer[calling_obj]:  # filled by another consumer in the meantime
+                        continue
+                    self._inspect_buffer_levels(self._get_objs_to_inspect())
+                    try:
+                        self._fill_block_buffers()
+                    except StopIteration:
+                        self._source_generator_exist = False
+                        return
         else:
             msg = 'Maximum size of block buffer is reached!'
             raise OSError(msg)
-- 
2.43.0


From 57561579008cc4ecd67782fc252e24d8723289e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 048/114] fix: objects can switch from one cache file to
 another

---
 acoular/h5cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..dd3385f 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -95,7 +95,7 @@ class HDF5Cache(HasStrictTraits):
             if Path(obj.h5f.filename).resolve() == filename:
                 self.busy = False
                 return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
-- 
2.43.0


From 4b16814b0c70910ec1264d9ad49b447754b2d52a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 049/114] fix: closed cache files are not handed out again

---
 acoular/h5cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index dd3385f..3b10c6b 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -31,7 +31,9 @@ class HDF5Cache(HasStrictTraits):
             pass
 
     def close_cachefile(self, cachefile):
-        self.open_file_reference.pop(Path(cachefile.filename))
+        filename = Path(cachefile.filename)
+        self.open_file_reference.pop(filename)
+        self.open_files.pop(filename, None)
         cachefile.close()
 
     def get_open_cachefiles(self):
@@ -41,7 +43,7 @@ class HDF5Cache(HasStrictTraits):
             return iter(self.open_files.values())
 
     def close_unreferenced_cachefiles(self):
-        for cachefile in self.get_open_cachefiles():
+        for cachefile in list(self.get_open_cachefiles()):
             if not self.is_reference_existent(cachefile):
                 self.close_cachefile(cachefile)
 
-- 
2.43.0


From 086ab704accac22fe0d0e8bac0b49da26b7fbde8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 050/114] fix: cache file manager is not blocked forever after
 an exception

---
 acoular/h5cache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index 3b10c6b..032da0e 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -85,17 +85,21 @@ class HDF5Cache(HasStrictTraits):
         """Returns pytables .h5 file to h5f trait of calling object for caching."""
         self._idle_if_busy()  #
         self.busy = True
+        try:
+            self._set_cache_file(obj, basename, mode)
+        finally:
+            self.busy = False
+
+    def _set_cache_file(self, obj, basename, mode):
         file_cls = _get_cachefile_class()
         filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
 
         if config.global_caching == 'readonly' and not filename.exists():
             obj.h5f = None
-            self.busy = False
             return  # cachefile is not created in readonly mode
 
         if isinstance(obj.h5f, file_cls):
             if Path(obj.h5f.filename).resolve() == filename:
-                self.busy = False
                 return
             self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
@@ -111,7 +115,6 @@ class HDF5Cache(HasStrictTraits):
         # garbage collection
         self.close_unreferenced_cachefiles()
 
-        self.busy = False
         self._print_open_files()
 
 
-- 
2.43.0


From 95a4af5f84329e6bc2c659717b42149f91881ba0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 051/114] fix: Cache can be used with sources that deliver no
 block

---
 acoular/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 05bbb4e..513a2d1 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -276,7 +276,8 @@ class Cache(InOut):
             self.h5f.append_data(ac, data)
             self.h5f.flush()
             yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if self.h5f.is_cached(nodename):  # not if the source is empty
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
         nodename = 'tc_' + self.digest
@@ -306,7 +307,8 @@ class Cache(InOut):
             if j >= nblocks:
                 self.h5f.flush()
                 yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if self.h5f.is_cached(nodename):  # not if the source is empty
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     # result generator: delivers input, possibly from cache
     def result(self, num):
-- 
2.43.0


From 42274b0702330c70c59828f0853ef22d404ab4ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:09 +0000
Subject: [PATCH 052/114] fix: PowerSpectra does not write to the cache in mode
 readonly

---
 acoular/spectra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..9daca61 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -526,9 +526,13 @@ class PowerSpectra(BaseSpectra):
 
         ac = self.h5f.get_data_by_reference(nodename)
         if ac[:].sum() == 0:  # only initialized
+            if config.global_caching == 'readonly':
+                return func()
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
             self.h5f.flush()
+        elif config.global_caching == 'readonly':
+            return ac[:]  # does not depend on the cache file
         return ac
 
     @property_depends_on(['digest'])
-- 
2.43.0


From 57ab458a9e8387325b70334bd8c160e7aa995c9d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:09 +0000
Subject: [PATCH 053/114] fix: cache files opened in readonly mode are reopened
 when caching needs to write

---
 acoular/h5cache.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index 032da0e..bea0802 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -98,13 +98,22 @@ class HDF5Cache(HasStrictTraits):
             obj.h5f = None
             return  # cachefile is not created in readonly mode
 
+        writable = config.global_caching != 'readonly'
+
         if isinstance(obj.h5f, file_cls):
-            if Path(obj.h5f.filename).resolve() == filename:
+            if Path(obj.h5f.filename).resolve() == filename and not (writable and obj.h5f.mode == 'r'):
                 return
             self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
+            obj.h5f = None
+
+        file = self.open_files.get(filename)
+        if file is not None and writable and file.mode == 'r':  # was opened in readonly mode
+            if self.is_reference_existent(file):
+                return  # still in use, cannot be reopened for writing
+            self.close_cachefile(file)
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
-            if config.global_caching == 'readonly':
+            if not writable:
                 mode = 'r'
             file = file_cls(filename, mode)
             self.open_files[filename] = file
-- 
2.43.0


From eec968b2581df411e969553c85668a6ee34057dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 054/114] fix: derived sizes and frequencies follow changes
 deeper in the chain of sources

---
 acoular/fprocess.py | 6 +++---
 acoular/process.py  | 4 ++--
 acoular/spectra.py  | 8 ++++----
 acoular/tprocess.py | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index e3a3d7e..20143ae 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', '_block_size'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -198,7 +198,7 @@ class IRFFT(TimeOut):
     #: The total number of time-domain samples in the output.
     #: Computed as the product of the number of input samples and the block size.
     #: Returns ``-1`` if the number of input samples is negative.
-    num_samples = Property(depends_on=['source.num_samples', 'source._block_size'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', 'source._block_size'])
 
     # Internal signal buffer used for handling arbitrary output block sizes. Optimizes
     # processing when the requested output block size does not match the source block size.
@@ -391,7 +391,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'source.digest'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
diff --git a/acoular/process.py b/acoular/process.py
index 513a2d1..1c7374f 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -124,12 +124,12 @@ class Average(InOut):
 
     #: The sampling frequency of the output signal. It is set automatically as
     #: (:attr:`~acoular.base.Generator.sample_freq` ``/`` :attr:`num_per_average`).
-    sample_freq = Property(depends_on=['source.sample_freq', 'num_per_average'])
+    sample_freq = Property(depends_on=['source.sample_freq', 'source.digest', 'num_per_average'])
 
     #: The number of samples (time domain) or snapshots (frequency domain) of the output signal.
     #: It is set automatically as
     #: (:attr:`~acoular.base.Generator.num_samples` ``/`` :attr:`num_per_average`).
-    num_samples = Property(depends_on=['source.num_samples', 'num_per_average'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', 'num_per_average'])
 
     #: A unique identifier based on the class properties.
     digest = Property(depends_on=['source.digest', 'num_per_average'])
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 9daca61..2086a6a 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -284,11 +284,11 @@ class PowerSpectra(BaseSpectra):
     #: The HDF5 cache file used for storing the results if :attr:`cached` is set to ``True``.
     h5f = Instance(H5CacheFileBase, transient=True)
 
-    @property_depends_on(['source.num_samples', 'block_size', 'overlap'])
+    @property_depends_on(['source.num_samples', 'source.digest', 'block_size', 'overlap'])
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
-    @property_depends_on(['source.sample_freq', 'block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', 'ind_low', 'ind_high'])
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -302,7 +302,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_low', '_freqlc'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -311,7 +311,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_high', '_freqhc'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index c4a4117..5e84e59 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -138,7 +138,7 @@ class MaskedTimeOut(TimeOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     # Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels', 'source.num_channels'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels', 'source.num_channels', 'source.digest'], desc='channel mask')
 
     # Number of channels in input, as given by :attr:`~acoular.base.TimeOut.source`.
     num_channels_total = Delegate('source', 'num_channels')
@@ -148,12 +148,12 @@ class MaskedTimeOut(TimeOut):
 
     # Number of valid channels, is set automatically.
     num_channels = Property(
-        depends_on=['invalid_channels', 'source.num_channels'], desc='number of valid input channels'
+        depends_on=['invalid_channels', 'source.num_channels', 'source.digest'], desc='number of valid input channels'
     )
 
     # Number of valid time samples, is set automatically.
     num_samples = Property(
-        depends_on=['start', 'stop', 'source.num_samples'], desc='number of valid samples per channel'
+        depends_on=['start', 'stop', 'source.num_samples', 'source.digest'], desc='number of valid samples per channel'
     )
 
     # Name of the cache file without extension, readonly.
@@ -1967,7 +1967,7 @@ class TimeConvolve(TimeOut):
     kernel = CArray(dtype=float, desc='Convolution kernel.')
 
     # Number of samples in output. The full convolution is longer than the input.
-    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', 'kernel'])
 
     _block_size = Int(desc='Block size')
 
-- 
2.43.0


From 82fc6bee1f652358a568dcd89f3dc83a64cba787 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 055/114] fix: PowerSpectra frequency indices follow the most
 recent assignment

---
 acoular/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 2086a6a..3288da6 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -302,7 +302,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_low', '_freqlc'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -311,7 +311,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_high', '_freqhc'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From 0ad8c9dc62f6d8fdec0e958a290fef84e98ceb46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:11 +0000
Subject: [PATCH 056/114] fix: BeamformerGIB keeps at least one grid point

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 5287971..f35b5a8 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2215,7 +2215,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                                 # Reorder from the greatest to smallest magnitude to define a
                                 # reduced-point source distribution, and reform a reduced transfer
                                 # matrix
-                                leftpoints = int(round(num_points * self.beta ** (it + 1)))
+                                leftpoints = max(int(round(num_points * self.beta ** (it + 1))), 1)
                                 idx = argsort(abs(qi[s, locpoints]))[::-1]
                                 # print(it, leftpoints, locpoints, idx )
                                 locpoints = delete(locpoints, [idx[leftpoints::]])
-- 
2.43.0


From cab06cf2cb5bfaded26fed0d96e06bcebb6081d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:11 +0000
Subject: [PATCH 057/114] fix: BeamformerGIB InverseIRLS with more channels
 than grid points

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index f35b5a8..b0fb12d 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2238,7 +2238,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                                 weights = weights / sum(absolute(weights))
                             elif num_channels > num_points:
                                 wtw = dot(weights.T, weights)
-                                qi[s, :] = dot(dot(inv(dot(dot(A.conj.T, wtw), A)), dot(A.conj().T, wtw)), emode)
+                                qi[s, :] = dot(dot(inv(dot(dot(A.conj().T, wtw), A)), dot(A.conj().T, wtw)), emode)
                                 weights = diag(absolute(qi[s, :]) ** ((2 - self.pnorm) / 2))
                                 weights = weights / sum(absolute(weights))
                     else:
-- 
2.43.0


From b9680d65429365ebf9b6cfd83dfbaf603978cf46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 058/114] fix: adaptive grid positions are not written to the
 cache in mode readonly

---
 acoular/fbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index b0fb12d..be1b292 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -433,6 +433,8 @@ class BeamformerBase(HasStrictTraits):
         if ac and fr:  # cached data is available
             if config.global_caching == 'readonly':
                 (ac, fr) = (ac[:], fr[:])  # so never write back to disk
+                if gpos:
+                    self._gpos = gpos[:]
         else:
             # no caching or not activated, init numpy arrays
             if isinstance(self, BeamformerAdaptiveGrid):
-- 
2.43.0


From 485bd6230a044e2d53fed8e73affa2627b5dd210 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 059/114] fix: OctaveFilterBank coefficients follow changes of
 bands, fraction and source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 5e84e59..98b1fbc 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1735,7 +1735,7 @@ class OctaveFilterBank(FilterBank):
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
     # List of filter coefficients for all filters
-    ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
     # List of labels for bands
     bands = Property(depends_on=['lband', 'hband', 'fraction'])
-- 
2.43.0


From 6bf6ddd3a1a81aa49e40bdf58588bc9356381f4b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 060/114] fix: TimeConvolve does not change a one dimensional
 kernel (and its digest) when it runs

---
 acoular/tprocess.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 98b1fbc..39f23b9 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1987,9 +1987,8 @@ class TimeConvolve(TimeOut):
         return self.source.num_samples + max(self.kernel.shape[0] - 1, 0)
 
     def _validate_kernel(self):
-        # reshape kernel for broadcasting
+        # a one dimensional kernel applies to all channels
         if self.kernel.ndim == 1:
-            self.kernel = self.kernel.reshape([-1, 1])
             return
         # check dimensionality
         if self.kernel.ndim > 2:
@@ -2003,18 +2002,19 @@ class TimeConvolve(TimeOut):
     # compute the rfft of the kernel blockwise
     @cached_property
     def _get__kernel_blocks(self):
-        [L, N] = self.kernel.shape
+        kernel = self.kernel.reshape([self.kernel.shape[0], -1])
+        [L, N] = kernel.shape
         num = self._block_size
         P = int(ceil(L / num))
         trim = num * (P - 1)
         blocks = zeros([P, num + 1, N], dtype='complex128')
 
         if P > 1:
-            for i, block in enumerate(split(self.kernel[:trim], P - 1, axis=0)):
+            for i, block in enumerate(split(kernel[:trim], P - 1, axis=0)):
                 blocks[i] = rfft(concatenate([block, zeros([num, N])], axis=0), axis=0)
 
         blocks[-1] = rfft(
-            concatenate([self.kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
+            concatenate([kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
             axis=0,
         )
         return blocks
-- 
2.43.0


From 7fbf532d932d852af13c5c22d98b94edd5d5df79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 061/114] fix: RFFT announces the number of overlapping blocks

---
 acoular/fprocess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 20143ae..315a8da 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', 'source.digest', '_block_size'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -92,9 +92,9 @@ class RFFT(BaseSpectra, SpectraOut):
 
     @cached_property
     def _get_num_samples(self):
-        if self.source.num_samples >= 0:
-            return int(np.floor(self.source.num_samples / self.block_size))
-        return -1
+        if self.source.num_samples >= self.block_size:
+            return (self.source.num_samples - self.block_size) * self.overlap_ // self.block_size + 1
+        return min(self.source.num_samples, 0)
 
     def _get_block_size(self):
         return self._block_size
-- 
2.43.0


From 415e7066aac5c2236ed630426bc3e097817fb7f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:46 +0000
Subject: [PATCH 062/114] fix: CrossPowerSpectra modes upper and lower

---
 acoular/fprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 315a8da..326ed90 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -391,7 +391,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels', 'source.digest'])
+    num_channels = Property(depends_on=['source.num_channels', 'source.digest', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
@@ -444,10 +444,10 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_upper[(slice(None), *np.triu_indices(nc_src))].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_lower[(slice(None), *np.tril_indices(nc_src))].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
-- 
2.43.0


From f1055855a5f6f4b3bca2d77e85fb9a1142f192f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 063/114] fix: PowerSpectraImport digest reflects the imported
 matrix and its frequencies

---
 acoular/aiaa/aiaa.py | 2 +-
 acoular/spectra.py   | 8 +-------
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index bdb1182..ae95f73 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -104,7 +104,7 @@ class CsmAIAABenchmark(PowerSpectraImport):
     h5f = Instance(H5FileBase, transient=True)
 
     # internal identifier
-    digest = Property(depends_on=['basename', '_csmsum'])
+    digest = Property(depends_on=['file'])
 
     @cached_property
     def _get_digest(self):
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 3288da6..d620d30 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -24,12 +24,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -668,7 +666,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csm', 'frequencies'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -676,9 +674,6 @@ class PowerSpectraImport(PowerSpectra):
     # Shadow trait for storing the CSM, for internal use only.
     _csm = CArray()
 
-    # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
-
     def _get_basename(self):
         return 'csm_import_' + self.digest
 
@@ -697,7 +692,6 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
 
     @property_depends_on(['digest'])
-- 
2.43.0


From f290f76759821f3ffa36a58eee4a1adb7609e25e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 064/114] fix: CsmAIAABenchmark loads a file of the same name
 from another folder

---
 acoular/aiaa/aiaa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index ae95f73..96a9abc 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -114,7 +114,7 @@ class CsmAIAABenchmark(PowerSpectraImport):
     def _get_basename(self):
         return get_file_basename(self.file)
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def load_data(self):
         """Open the .h5 file and set attributes."""
         if self.h5f is not None:
-- 
2.43.0


From 9af043aff1b0e1c4de6c9380072260c6c5fc8399 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 065/114] fix: PowerSpectra.freq_range can be read when its
 upper limit is None

---
 acoular/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index d620d30..b1cd3f7 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -290,7 +290,7 @@ class PowerSpectra(BaseSpectra):
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-            if self._ind_high is None:
+            if self.ind_high is None:
                 return array([fftfreq[self.ind_low], None])
             return fftfreq[[self.ind_low, self.ind_high]]
         return None
-- 
2.43.0


From 5db941d23a7585f660bbf71785feb2714b369645 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:42 +0000
Subject: [PATCH 066/114] fix: power spectral density is the power per
 frequency interval

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 326ed90..059de4b 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -314,7 +314,7 @@ class AutoPowerSpectra(SpectraOut):
         if self.single_sided:
             scale *= 2
         if self.scaling == 'psd':
-            scale *= self.block_size * self.source.sample_freq
+            scale *= self.block_size / self.source.sample_freq
         return scale
 
     def result(self, num=1):
-- 
2.43.0


From 2ff2befec5fb4f0cf42ffea626d102b801779d1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:54 +0000
Subject: [PATCH 067/114] fix: PointSource does not read beyond either end of
 the signal array

With delays longer than the signal, or with a recording that starts after the
signal, _fill_mic_signal_block (numba, no bounds checks) read arbitrary memory,
and too many blocks were delivered for prepadding 'zeros'.
---
 acoular/sources.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index b6f04bb..7a7be30 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -102,7 +102,7 @@ def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, pr
     if prepadding:
         for b in range(blocksize):
             for m in range(num_channels):
-                if ind[0, m] < 0:
+                if ind[0, m] < 0 or int(0.5 + ind[0, m]) >= signal.shape[0]:
                     out[b, m] = 0
                 else:
                     out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
@@ -110,7 +110,7 @@ def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, pr
     else:
         for b in range(blocksize):
             for m in range(num_channels):
-                out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                out[b, m] = signal[int(0.5 + ind[0, m]) % signal.shape[0]] / rm[0, m]
             ind += up
     return out
 
@@ -921,7 +921,7 @@ class PointSource(SamplesGenerator):
 
         if self.prepadding == 'zeros':
             # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
+            pre = max(-int(npmin(ind[0]) // (self.up * num)), 0)
             # amend signal for first blocks
             # if signal stops during prepadding, terminate
             if pre >= N:
@@ -942,13 +942,14 @@ class PointSource(SamplesGenerator):
             pre = 0
 
         # main generator
+        zeros_padding = self.prepadding == 'zeros'
         for _nb in range(N - pre - 1):
-            out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, False)
+            out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, zeros_padding)
             yield out
 
         # last block of variable size
         blocksize = self.num_samples % num or num
-        out = _fill_mic_signal_block(out, signal, rm, ind, blocksize, self.num_channels, self.up, False)
+        out = _fill_mic_signal_block(out, signal, rm, ind, blocksize, self.num_channels, self.up, zeros_padding)
         yield out[:blocksize]
 
 
-- 
2.43.0


From 9cf45d439b6fac03acc0b8d837838cdf3fc4b04d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 068/114] fix: line sources do not change their signal

result() multiplied signal.rms by the source strengths cumulatively and left
the changed rms and seed in the user's signal object, so every run of the
source and everything else using the signal got different values. The seeds of
incoherent monopoles came from hash(), which differs between processes.
---
 acoular/sources.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 7a7be30..05528ac 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1686,15 +1686,16 @@ class LineSource(PointSource):
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
         signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
+        # incoherent sources need a copy, because the seed is changed
+        signal = self.signal.clone_traits() if self.coherence == 'incoherent' else self.signal
         # for every source - distances
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal.seed = s + int(self.digest[1:8], 16)
+            signals[s] = self.source_strength[s] * signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1908,13 +1909,14 @@ class MovingLineSource(LineSource, MovingPointSource):
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
         signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
+        # incoherent sources need a copy, because the seed is changed
+        signal = self.signal.clone_traits() if self.coherence == 'incoherent' else self.signal
         # coherence
         for s in range(self.num_sources):
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal.seed = s + int(self.digest[1:8], 16)
+            signals[s] = self.source_strength[s] * signal.usignal(self.up)
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From c2bda0a49b5dd48d5bb30cf3c96ee2b4b020c85b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 069/114] fix: UncorrelatedNoiseSource uses all parameters of
 its signal

The filter coefficients of a FiltWNoiseGenerator and the depth of a
PNoiseGenerator were dropped.
---
 acoular/sources.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 05528ac..25a9260 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2095,7 +2095,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
         - Each channel's noise signal is generated using a unique random seed.
         - The type and characteristics of the noise are defined by the :attr:`signal` attribute.
         """
-        Noise = self.signal.__class__
         # create or get the array of random seeds
         if not self.seed.size > 0:
             seed = arange(self.num_channels) + self.signal.seed
@@ -2105,12 +2104,12 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             msg = f'Seed array expected to be of shape ({self.num_channels:d},), but has shape {self.seed.shape}.'
             raise ValueError(msg)
         # create array with [num_channels] noise signal tracks
-        signal = array(
-            [
-                Noise(seed=s, num_samples=self.num_samples, sample_freq=self.sample_freq, rms=self.signal.rms).signal()
-                for s in seed
-            ],
-        ).T
+        noise = self.signal.clone_traits()
+        signals = []
+        for s in seed:
+            noise.seed = int(s)
+            signals.append(noise.signal())
+        signal = array(signals).T
 
         n = num
         while n <= self.num_samples:
-- 
2.43.0


From b228bc85c705f57a308750cdfc30cfdb1139c383 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 070/114] fix: emission times of fast moving sources converge

The Newton iteration used the radial Mach number with respect to the origin of
the coordinate system instead of the derivative with respect to the microphone
and did not converge above Mach 0.33 for microphones on the other side.
---
 acoular/sources.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 25a9260..85785c8 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1189,12 +1189,13 @@ class MovingPointSource(PointSource):
             # Newton-Rhapson iteration
             while abs(eps).max() > epslim and j < 100:
                 loc = array(tr.location(te))
-                rm = loc - m.pos  # distance vectors to microphones
-                rm = sqrt((rm * rm).sum(0))  # absolute distance
+                rv = loc - m.pos  # distance vectors to microphones
+                rm = sqrt((rv * rv).sum(0))  # absolute distance
                 loc /= sqrt((loc * loc).sum(0))  # distance unit vector
                 der = array(tr.location(te, der=1))
                 Mr = (der * loc).sum(0) / c0  # radial Mach number
-                eps = (te + rm / c0 - t) / (1 + Mr)  # discrepancy in time
+                # discrepancy in time, divided by its derivative
+                eps = (te + rm / c0 - t) / (1 + (der * rv).sum(0) / rm / c0)
                 te -= eps
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
@@ -1448,12 +1449,13 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             xs = array(self.trajectory.location(te))
             loc = xs.copy()
             loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
+            rv = loc - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((rv * rv).sum(0))  # absolute distance
             loc /= sqrt((loc * loc).sum(0))  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
-            eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
+            # discrepancy in time, divided by its derivative
+            eps = (te + rm / self.env.c - t) / (1 + (der * rv).sum(0) / rm / self.env.c)
             te -= eps
             j += 1  # iteration count
         return te, rm, Mr, xs
@@ -1863,12 +1865,13 @@ class MovingLineSource(LineSource, MovingPointSource):
             xs = array(self.trajectory.location(te))
             loc = xs.copy()
             loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
+            rv = loc - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((rv * rv).sum(0))  # absolute distance
             loc /= sqrt((loc * loc).sum(0))  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
-            eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
+            # discrepancy in time, divided by its derivative
+            eps = (te + rm / self.env.c - t) / (1 + (der * rv).sum(0) / rm / self.env.c)
             te -= eps
             j += 1  # iteration count
         return te, rm, Mr, xs
-- 
2.43.0


From e5280a9b27e706cf4f4295da4270fa0eb69d0006 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 071/114] fix: start time of moving sources is not counted
 twice

The emission times are already those of a recording beginning at start.
---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 85785c8..531090c 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1200,7 +1200,7 @@ class MovingPointSource(PointSource):
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
             # emission time relative to start time
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
             try:
@@ -1563,7 +1563,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             rm1 = self.env._r(loc + diff, mpos)
             rm2 = self.env._r(loc - diff, mpos)
 
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
@@ -1940,7 +1940,7 @@ class MovingLineSource(LineSource, MovingPointSource):
                 loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
-                inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                inds[:, s] = (te - self.start_t) * self.sample_freq
 
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
-- 
2.43.0


From 3bc8a2916aef542848b6536b5342dfb0a83b414c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:56 +0000
Subject: [PATCH 072/114] fix: shape of SteeringVector.rm for a single
 microphone

---
 acoular/fbeamform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index be1b292..b1f454e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -43,7 +43,6 @@ from numpy import (
     arange,
     argsort,
     array,
-    atleast_2d,
     clip,
     delete,
     diag,
@@ -212,7 +211,7 @@ class SteeringVector(HasStrictTraits):
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
     def _get_rm(self):
-        return atleast_2d(self.env._r(self.grid.pos, self.mics.pos))
+        return self.env._r(self.grid.pos, self.mics.pos).reshape(self.grid.size, self.mics.num_mics)
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From b33b41ec367f269195404100fc9045b1993cc375 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 073/114] fix: integrate for beamformers with adaptive grid

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index b1f454e..e0e40e6 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2324,8 +2324,8 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
                 msg,
             )
 
+        r = self.result[:]  # positions are known only after calculation
         ind = self.subdomain(sector)
-        r = self.result
         h = zeros(r.shape[0])
         for i in range(r.shape[0]):
             h[i] = r[i][ind].sum()
-- 
2.43.0


From 0b086f67cc2530c7d4f68dd09ff308e9f5bb372b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 074/114] fix: BeamformerGridlessOrth positions are within the
 bounds

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index e0e40e6..8c27aca 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2455,7 +2455,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                 # index in grid
                 i1 = i * self.n + j
                 # store result for position
-                self._gpos[:, i1] = oR['x']
+                self._gpos[:, i1] = clip(oR['x'], bmin, bmax)
                 # store result for level
                 self._ac[i, i1] = eva[n] / num_channels
                 # print(oR['x'],eva[n]/num_channels,oR)
-- 
2.43.0


From 3ebe2b79875585ddbd9b7b9f2643aeccd2597894 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 075/114] fix: size of BeamformerGridlessOrth with eva_list

---
 acoular/fbeamform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 8c27aca..082327a 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2382,9 +2382,9 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
         """Sets the list of eigenvalues to consider."""
         self.eva_list = arange(-1, -1 - self.n, -1)
 
-    @property_depends_on('n')
+    @property_depends_on(['eva_list', 'freq_data.digest'])
     def _get_size(self):
-        return self.n * self.freq_data.fftfreq().shape[0]
+        return self.eva_list.size * self.freq_data.fftfreq().shape[0]
 
     def _calc(self, ind):
         """Calculates the result for the frequencies defined by :attr:`freq_data`.
@@ -2453,7 +2453,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                 # simplical global homotopy optimizer
                 oR = shgo(func, self.bounds, **shgo_opts)
                 # index in grid
-                i1 = i * self.n + j
+                i1 = i * self.eva_list.size + j
                 # store result for position
                 self._gpos[:, i1] = clip(oR['x'], bmin, bmax)
                 # store result for level
-- 
2.43.0


From 61eaa05d2709ff3b3439d3d9b3206554698d64a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:50 +0000
Subject: [PATCH 076/114] fix: BeamformerFunctional with rank-deficient cross
 spectral matrix

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 082327a..930e84b 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -772,7 +772,8 @@ class BeamformerFunctional(BeamformerBase):
                 indNegSign = sign(beamformerOutput) < 0
                 beamformerOutput[indNegSign] = 0.0
             else:
-                eva = array(self.freq_data.eva[i], dtype='float64') ** (1.0 / self.gamma)
+                # eigenvalues are only negative due to rounding errors
+                eva = clip(array(self.freq_data.eva[i], dtype='float64'), 0, None) ** (1.0 / self.gamma)
                 eve = array(self.freq_data.eve[i], dtype='complex128')
                 beamformerOutput, steerNorm = beamformerFreq(
                     param_steer_type,
-- 
2.43.0


From 6af40df6dd457b9b800559ced292fd65a9808f80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:50 +0000
Subject: [PATCH 077/114] fix: repeated calculation of a frequency by
 BeamformerOrth

---
 acoular/fbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 930e84b..20b85db 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1439,6 +1439,7 @@ class BeamformerOrth(BeamformerBase):
         for i in ind:
             eva = array(self.freq_data.eva[i], dtype='float64')
             eve = array(self.freq_data.eve[i], dtype='complex128')
+            result = zeros(self.steer.grid.size)
             for n in self.eva_list:
                 beamformerOutput = beamformerFreq(
                     param_steer_type,
@@ -1447,7 +1448,8 @@ class BeamformerOrth(BeamformerBase):
                     steer_vector(f[i]),
                     (ones(1), eve[:, n].reshape((-1, 1))),
                 )[0]
-                self._ac[i, beamformerOutput.argmax()] += eva[n] / num_channels
+                result[beamformerOutput.argmax()] += eva[n] / num_channels
+            self._ac[i] = result
             self._fr[i] = 1
 
 
-- 
2.43.0


From 6fdd2ec848f25a89eb7d694736878bb5f4853ba2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:50 +0000
Subject: [PATCH 078/114] fix: number of eigenvalues follows changes of the
 microphone array

---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 20b85db..c815f8f 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -856,7 +856,7 @@ class BeamformerEig(BeamformerBase):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['steer.mics', 'n'])
+    @property_depends_on(['steer.mics.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
@@ -2137,7 +2137,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on('n')
+    @property_depends_on(['steer.mics.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
-- 
2.43.0


From 81d1393ffe97be0c6c345293ccd4cde14395cabb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:50 +0000
Subject: [PATCH 079/114] fix: results of beamformers can be indexed with
 lists, arrays and masks

---
 acoular/fbeamform.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c815f8f..9f31c74 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -56,7 +56,6 @@ from numpy import (
     hstack,
     index_exp,
     inf,
-    integer,
     isscalar,
     log10,
     ndarray,
@@ -289,11 +288,9 @@ class LazyBfResult:
 
     def __getitem__(self, key):
         # 'intelligent' [] operator checks if results are available and triggers calculation
-        sl = index_exp[key][0]
-        if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1 or None)  # -1 means the last one
+        ind = unique(arange(self.bf._numfreq)[index_exp[key][0]])
         # indices which are missing
-        missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
+        missingind = ind[self.bf._fr[:][ind] == 0]
         # calc if needed
         if missingind.size:
             self.bf._calc(missingind)
-- 
2.43.0


From 103020fadc93a80aebcaf84d8704c35795c64f76 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 080/114] fix: CLEAN-SC yields no negative or invalid source
 strengths

---
 acoular/fbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9f31c74..9a33237 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1513,6 +1513,8 @@ class BeamformerCleansc(BeamformerBase):
             for j in range(J):
                 xi_max = h.argmax()  # index of maximum
                 powers[j] = hmax = h[xi_max]  # maximum
+                if hmax <= 0:  # no source left
+                    break
                 result[xi_max] += self.damp * hmax
                 if j > self.stopn and hmax > powers[j - self.stopn]:
                     break
-- 
2.43.0


From 8d9e58187b44a3d46cef59907749931946e2f58c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 081/114] fix: CLEAN-SC with full cross spectral matrix

---
 acoular/fbeamform.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9a33237..e5fc755 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1520,12 +1520,15 @@ class BeamformerCleansc(BeamformerBase):
                     break
                 wmax = self.steer.steer_vector(f[i], xi_max) * sqrt(normfactor)
                 wmax = wmax[0].conj()  # as old code worked with conjugated csm..should be updated
-                hh = wmax.copy()
-                D1 = dot(csm.T - diag(diag(csm)), wmax) / hmax
-                ww = wmax.conj() * wmax
-                for _m in range(20):
-                    H = hh.conj() * hh
-                    hh = (D1 + H * wmax) / sqrt(1 + dot(ww, H))
+                if self.r_diag:
+                    hh = wmax.copy()
+                    D1 = dot(csm.T - diag(diag(csm)), wmax) / hmax
+                    ww = wmax.conj() * wmax
+                    for _m in range(20):
+                        H = hh.conj() * hh
+                        hh = (D1 + H * wmax) / sqrt(1 + dot(ww, H))
+                else:  # coherent component directly from the full csm
+                    hh = dot(csm.T, wmax) / hmax
                 hh = hh[:, newaxis]
                 csm1 = hmax * (hh * hh.conj().T)
 
-- 
2.43.0


From 300ef2ada840425bdd42801a46c4ef04c18c3912 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:45 +0000
Subject: [PATCH 082/114] fix: BeamformerBase.integrate without prior access to
 the result

The frequencies of the map are known only after the result property was
read, so that an empty spectrum was returned.
---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index e5fc755..4a0b561 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -657,6 +657,7 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        res = self.result  # trigger calculation
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
@@ -680,7 +681,7 @@ class BeamformerBase(HasStrictTraits):
                 )
             h = zeros(self._numfreq, dtype=float)
             sl = slice(*irange)
-            r = self.result[sl]
+            r = res[sl]
             for i in range(*irange):
                 # we do this per frequency because r might not have fancy indexing
                 h[i] = r[i - sl.start].reshape(gshape)[ind].sum()
-- 
2.43.0


From 807e4d15d0fd63a7da6c7ed6e7fc741fbd1a0977 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 083/114] fix: AngleTracker counts triggers at non-integer and
 varying distances

---
 acoular/tprocess.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 39f23b9..093b542 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -46,7 +46,6 @@ from numpy import (
     argsort,
     array,
     array_equal,
-    asarray,
     ceil,
     concatenate,
     cumsum,
@@ -66,6 +65,7 @@ from numpy import (
     newaxis,
     pi,
     polymul,
+    searchsorted,
     sin,
     sinc,
     split,
@@ -566,11 +566,6 @@ class AngleTracker(MaskedTimeOut):
     def _get_digest(self):
         return digest(self)
 
-    # helperfunction for trigger index detection
-    def _find_nearest_idx(self, peakarray, value):
-        peakarray = asarray(peakarray)
-        return (abs(peakarray - value)).argmin()
-
     def _to_rpm_and_angle(self):
         """Internal helper function
         Calculates angles in radians for one or more instants in time.
@@ -594,25 +589,18 @@ class AngleTracker(MaskedTimeOut):
         # loop over all timesamples
         while ind < num:
             # when starting spline forward
-            if ind < peakloc[InterpPoints]:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist : ind // peakdist + InterpPoints]),
-                    axis=0,
-                )
+            nextPeak = searchsorted(peakloc, ind, side='right')
+            if nextPeak <= InterpPoints:
+                first = nextPeak - 1
             # spline backwards
             else:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist - InterpPoints : ind // peakdist]),
-                    axis=0,
-                )
+                first = nextPeak - InterpPoints
+            # the triggers used for interpolation and their number since the start
+            first = min(max(first, 0), len(peakloc) - InterpPoints)
+            splineData = stack(
+                (range(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
+                axis=0,
+            )
             # calc angles and rpm
             Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
             self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
-- 
2.43.0


From 0f84ab36024cd886ab7ceb46eaee842bb5fa4d60 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 084/114] fix: AngleTracker.rpm with several triggers per
 revolution

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 093b542..39e3379 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -603,7 +603,7 @@ class AngleTracker(MaskedTimeOut):
             )
             # calc angles and rpm
             Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
-            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
+            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate / TriggerPerRevo
             self._angle[ind] = (
                 splev(ind, Spline, der=0, ext=0) * 2 * pi * rotDirection / TriggerPerRevo + self.start_angle
             ) % (2 * pi)
-- 
2.43.0


From f2d16f83f880ef9c6cf424b71f43e9c4a6c210ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 085/114] fix: locations of rectangular triggers in the first
 block

---
 acoular/tprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 39e3379..37e5bfb 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -411,6 +411,8 @@ class Trigger(TimeOut):  # pragma: no cover
         x0 = []
         dSamples = 0
         for triggerSignal in self.source.result(num):
+            if dSamples == 0:
+                x0 = triggerSignal[0]  # no jump before the first sample
             localTrigger = flatnonzero(triggerFunc(x0, triggerSignal, threshold))
             if len(localTrigger) != 0:
                 peakLoc = append(peakLoc, localTrigger + dSamples)
-- 
2.43.0


From da0c46c829c1ca4c457914bea8171a804e0b9541 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 086/114] fix: Trigger warns about varying distances for any
 source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 37e5bfb..eba760c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -451,7 +451,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + getattr(self.source, 'start', 0)}).',
                 Warning,
                 stacklevel=2,
             )
-- 
2.43.0


From 849f54d10a4870f9b746cbcb28297a7f5c546220 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 087/114] fix: SpatialInterpolatorRotation uses the angle of
 its source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index eba760c..61f51c1 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1190,7 +1190,7 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
         # period for rotation
         period = 2 * pi
         # get angle
-        angle = self.angle_source.angle()
+        angle = self.angle_source.angle
         # counter to track angle position in time for each block
         count = 0
         for timeData in self.source.result(num):
-- 
2.43.0


From b7e1c812dec7a34634c147306fb54e39803bd100 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 088/114] fix: SpatialInterpolator follows changes of its
 microphones

---
 acoular/tprocess.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 61f51c1..941f369 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -663,14 +663,12 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['mics', '_mics_virtual'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
     def _get_mics_virtual(self):
-        if not self._mics_virtual and self.mics:
-            self._mics_virtual = self.mics
-        return self._mics_virtual
+        return self._mics_virtual if self._mics_virtual else self.mics
 
     def _set_mics_virtual(self, mics_virtual):
         self._mics_virtual = mics_virtual
@@ -721,8 +719,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+    virtNewCoord = Property(  # noqa: N815
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'Q', 'interp_at_zero'],
     )
 
     # internal identifier
@@ -925,7 +923,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         # number of virtual mixcs
         nVirtMics = self.mics_virtual.mpos.shape[1]
         # mesh and projection onto polar Coordinates
-        meshList, virtNewCoord, newCoord = self._get_virtNewCoord()
+        meshList, virtNewCoord, newCoord = self.virtNewCoord
         # pressure interpolation init
         pInterp = zeros((nTime, nVirtMics))
         # Coordinates in cartesian CO - for IDW interpolation
-- 
2.43.0


From 79bd250fe9648e0f68940b88528b84175dfcdfc7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 089/114] fix: digest of SpatialInterpolator contains the IDW
 parameters

---
 acoular/tprocess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 941f369..6c5981f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -732,6 +732,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             'method',
             'array_dimension',
             'Q',
+            'num_IDW',
+            'p_weight',
             'interp_at_zero',
         ],
     )
@@ -1162,6 +1164,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'method',
             'array_dimension',
             'Q',
+            'num_IDW',
+            'p_weight',
             'interp_at_zero',
         ],
     )
@@ -1217,6 +1221,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'method',
             'array_dimension',
             'Q',
+            'num_IDW',
+            'p_weight',
             'interp_at_zero',
             'rotational_speed',
         ],
-- 
2.43.0


From 686fe7ab4f32e5e413fd7e70d2111573e5b3cb60 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 090/114] fix: virtual microphones of ring arrays are
 transformed with Q

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 6c5981f..fdf1be1 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -817,7 +817,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             newCoord = (cartToCyl(mpos, self.Q).T)[indReorderHelp].T
 
             # and for virtual mics
-            virtNewCoord = cartToCyl(mpos_virt)
+            virtNewCoord = cartToCyl(mpos_virt, self.Q)
 
         elif self.array_dimension == '2D':  # 2d case0
             # get virtual mic projections on new coord system
-- 
2.43.0


From fe5387ed6c928d82a808b9316c428fa714f01731 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 091/114] fix: IDW interpolation with other numbers of virtual
 microphones

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index fdf1be1..95af33f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1069,7 +1069,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                     newPoint3_M = append(newPoint2_M, zeros([1, self.num_channels]), axis=0)
                     newPointCart = cylToCart(newPoint3_M)
                     for ind in arange(len(newPoint[:, 0])):
-                        newPoint_Rep = tile(newPointCart[:, ind], (len(newPoint[:, 0]), 1)).T
+                        newPoint_Rep = tile(newPointCart[:, ind], (newCoordCart.shape[1], 1)).T
                         subtract = newPoint_Rep - newCoordCart
                         normDistance = norm(subtract, axis=0)
                         index_norm = argsort(normDistance)[: self.num_IDW]
-- 
2.43.0


From 712ec18bb2a7b5e12d85b9be483b80bcfebb058d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:21 +0000
Subject: [PATCH 092/114] fix: SpatialInterpolator with method sinc

---
 acoular/tprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 95af33f..49ff423 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -986,7 +986,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, :],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),  # Rbf would bind a method to itself
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1033,7 +1033,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),  # Rbf would bind a method to itself
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1107,7 +1107,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),  # Rbf would bind a method to itself
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
-- 
2.43.0


From 497f9d8a6051531367b5664548d27d2699f65521 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:07 +0000
Subject: [PATCH 093/114] fix: MetricEvaluator does not change the data it
 evaluates

---
 acoular/tools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 0484833..6e56a64 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -117,7 +117,7 @@ class MetricEvaluator(HasStrictTraits):
         sectors = self.sectors
         results = empty(shape=self.target_data.shape)
         for f in range(self.target_data.shape[0]):
-            data = self.data[f]
+            data = self.data[f].copy()
             for i in range(self.target_data.shape[1]):
                 sector = sectors[i]
                 results[f, i] = integrate(data, self.grid, sector)
-- 
2.43.0


From b0500b69dff704a3150a97ab45665b114e4e6949 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:07 +0000
Subject: [PATCH 094/114] fix: default sector of MetricEvaluator

---
 acoular/tools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 6e56a64..40460e3 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -51,7 +51,7 @@ class MetricEvaluator(HasStrictTraits):
     target_grid = Instance(Grid, desc='Grid instance that belongs to the ground-truth data')
 
     #: sector type. Currently only circular sectors are supported.
-    sector = Instance(CircSector, default=CircSector())
+    sector = Instance(CircSector, ())
 
     #: if set True: use shrink integration area if two sources are closer
     #: than 2*r. The radius of the integration area is then set to half the
-- 
2.43.0


From 0e10e90c986cac9dca45e4642260780d74e2c3b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 095/114] fix: time domain beamformers refuse a source that
 does not fit the microphones

---
 acoular/tbeamform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 2cd9ceb..f65d5cd 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -119,6 +119,12 @@ class BeamformerTime(TimeOut):
     def _get_digest(self):
         return digest(self)
 
+    def _validate_num_mics(self):
+        # The source has to provide one channel for every microphone.
+        if self.source.num_channels != self.steer.mics.num_mics:
+            msg = f'{self.source.num_channels:d} channels do not fit {self.steer.mics.num_mics:d} mics'
+            raise ValueError(msg)
+
     def _get_weights(self):
         return self.weights_(self)[newaxis] if self.weights_ else 1.0
 
@@ -142,6 +148,7 @@ class BeamformerTime(TimeOut):
                 large (number of grid points).
                 The last block returned by the generator may be shorter than num.
         """
+        self._validate_num_mics()
         # initialize values
         steer_func = self.steer._steer_funcs_time[self.steer.steer_type]
         fdtype = float64
@@ -375,6 +382,7 @@ class BeamformerTimeTraj(BeamformerTime):
                 large (number of grid points).
                 The last block returned by the generator may be shorter than num.
         """
+        self._validate_num_mics()
         # initialize values
         if self.precision == 64:
             fdtype = float64
-- 
2.43.0


From 01bc3b736b00a52d598665952b2fe6135f5afdba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 096/114] fix: SpatialInterpolator refuses a source that does
 not fit the microphones

---
 acoular/tprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 49ff423..7c1c22a 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -918,6 +918,9 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             The interpolated time data at the virtual mics
 
         """
+        if p.shape[1] != self.mics.num_mics:
+            msg = f'{p.shape[1]:d} channels do not fit {self.mics.num_mics:d} mics'
+            raise ValueError(msg)
         if phi_delay is None:
             phi_delay = []
         # number of time samples
-- 
2.43.0


From 2dede7aa0c59773de756a2c226c1a5ec8d0f6863 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 097/114] fix: LineSource refuses source_strength that does not
 fit the number of sources

---
 acoular/sources.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 531090c..d1bec0a 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1648,6 +1648,12 @@ class LineSource(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _validate_source_strength(self):
+        # One coefficient is required for every monopole.
+        if self.source_strength.shape != (self.num_sources,):
+            msg = f'source_strength of shape {self.source_strength.shape} does not fit {self.num_sources:d} sources'
+            raise ValueError(msg)
+
     def result(self, num=128):
         """
         Generate the output signal at microphones in blocks.
@@ -1667,6 +1673,7 @@ class LineSource(PointSource):
         # If signal samples are needed for te < t_start, then samples are taken
         # from the end of the calculated signal.
 
+        self._validate_source_strength()
         mpos = self.mics.pos
 
         # direction vector from tuple
@@ -1894,6 +1901,7 @@ class MovingLineSource(LineSource, MovingPointSource):
         """
         # If signal samples are needed for te < t_start, then samples are taken
         # from the end of the calculated signal.
+        self._validate_source_strength()
         mpos = self.mics.pos
 
         # direction vector from tuple
-- 
2.43.0


From a1581332d89a4ca49743713662a8068b5ad912d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 098/114] fix: SteeringVector refuses reference positions of
 wrong shape

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 4a0b561..e68d1c6 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -186,7 +186,7 @@ class SteeringVector(HasStrictTraits):
                 self._ref = absolute(float(ref))
             except ValueError as ve:
                 raise TraitError(args=self, name='ref', info='Float or CArray(3,)', value=ref) from ve
-        elif len(ref) == 3:
+        elif array(ref).shape == (3,):
             self._ref = array(ref, dtype=float)
         else:
             raise TraitError(args=self, name='ref', info='Float or CArray(3,)', value=ref)
-- 
2.43.0


From 49c6b2d57208d0e6ece9bbe31a3e8775b45b11e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 099/114] fix: PowerSpectraImport.digest follows frequencies of
 a single line

---
 acoular/spectra.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index b1cd3f7..16bea3c 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -37,6 +37,7 @@ from traits.api import (
     ABCHasStrictTraits,
     Bool,
     CArray,
+    ComparisonMode,
     Delegate,
     Enum,
     Float,
@@ -633,7 +634,12 @@ class PowerSpectraImport(PowerSpectra):
 
     #: The frequencies included in the CSM in ascending order. Accepts list, array, or a single
     #: float value.
-    frequencies = Union(CArray, Float, desc='frequencies included in the cross-spectral matrix')
+    frequencies = Union(
+        CArray,
+        Float,
+        comparison_mode=ComparisonMode.identity,  # arrays cannot be compared with ==
+        desc='frequencies included in the cross-spectral matrix',
+    )
 
     #: Number of time data channels, inferred from the shape of the CSM.
     num_channels = Property(depends_on=['digest'])
-- 
2.43.0


From 2b02981e98d675a7fd7957495e2c1462c925c446 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 100/114] fix: SteeringVector.inv_digest does not depend on
 steer_type

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index e68d1c6..0fed2aa 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -218,7 +218,7 @@ class SteeringVector(HasStrictTraits):
 
     @cached_property
     def _get_inv_digest(self):
-        return digest(self)
+        return digest(self, 'inv_digest')
 
     def transfer(self, f, ind=None):
         """Calculates the transfer matrix for one frequency.
-- 
2.43.0


From ec9af8012e96fcb8b0017aa84e98612f14a9261f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:22 +0000
Subject: [PATCH 101/114] fix: GenericSignalGenerator.digest follows
 num_samples

---
 acoular/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..cc05832 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property()
+    num_samples = Property(depends_on=['_num_samples', 'source.num_samples'])
 
     def _get_num_samples(self):
         if self._num_samples:
-- 
2.43.0


From 7fccec0a9760be288c7156a01024752c24de1dfa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 102/114] fix: digests of line, moving and spherical harmonic
 sources reflect all of their parameters

---
 acoular/sources.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index d1bec0a..0720be0 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -989,6 +989,7 @@ class SphericalHarmonicSource(PointSource):
             'start_t',
             'start',
             'up',
+            'direction',
             'alpha',
             'lOrder',
             'prepadding',
@@ -1125,6 +1126,7 @@ class MovingPointSource(PointSource):
             'env.digest',
             'start_t',
             'start',
+            'up',
             'trajectory.digest',
             'prepadding',
         ],
@@ -1392,6 +1394,9 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'start',
             'up',
             'direction',
+            'rvec',
+            'conv_amp',
+            'trajectory.digest',
         ],
     )
 
@@ -1639,6 +1644,8 @@ class LineSource(PointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
             'source_strength',
             'coherence',
         ],
@@ -1761,6 +1768,13 @@ class MovingLineSource(LineSource, MovingPointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
+            'source_strength',
+            'coherence',
+            'rvec',
+            'conv_amp',
+            'trajectory.digest',
         ],
     )
 
-- 
2.43.0


From 0c10f4f72f743f32b082adca26cdef04ea2f3865 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 103/114] fix: indices of PowerSpectraImport follow changed
 frequencies

---
 acoular/spectra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 16bea3c..31326f3 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -287,7 +287,7 @@ class PowerSpectra(BaseSpectra):
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
-    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['source.sample_freq', 'digest', 'block_size', 'ind_low', 'ind_high'])
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -301,7 +301,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
+    @property_depends_on(['source.sample_freq', 'digest', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -310,7 +310,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
+    @property_depends_on(['source.sample_freq', 'digest', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -331,7 +331,7 @@ class PowerSpectra(BaseSpectra):
         self._index_set_last = True
         self._ind_low = ind_low
 
-    @property_depends_on(['block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['digest', 'block_size', 'ind_low', 'ind_high'])
     def _get_indices(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From 4ad13e4739b6459e500410d6d2bc940a146e18ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:02 +0000
Subject: [PATCH 104/114] fix: digest of default float parameters does not
 depend on whether they were assigned

---
 acoular/fbeamform.py | 4 ++--
 acoular/grids.py     | 2 +-
 acoular/sources.py   | 2 +-
 acoular/tprocess.py  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 0fed2aa..b638838 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -702,7 +702,7 @@ class BeamformerFunctional(BeamformerBase):
     """
 
     #: Functional exponent, defaults to 1 (= Classic Beamforming).
-    gamma = Float(1, desc='functional exponent')
+    gamma = Float(1.0, desc='functional exponent')
 
     #: Functional Beamforming is only well defined for full CSM
     r_diag = Enum(False, desc='False, as Functional Beamformer is only well defined for the full CSM')
@@ -2098,7 +2098,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
 
     #: Norm to consider for the regularization in InverseIRLS and Suzuki methods
     #: defaults to L-1 Norm
-    pnorm = Float(1, desc='Norm for regularization')
+    pnorm = Float(1.0, desc='Norm for regularization')
 
     #: Beta - Fraction of sources maintained after each iteration
     #: defaults to 0.9
diff --git a/acoular/grids.py b/acoular/grids.py
index 4c36ea1..b4afd8c 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -968,7 +968,7 @@ class LineGrid(Grid):
     direction = Tuple((1.0, 0.0, 0.0), desc='Line orientation ')
 
     #: Total length of the line. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of grid points along the line. Default is ``1``.
     num_points = Int(1, desc='length of the line source')
diff --git a/acoular/sources.py b/acoular/sources.py
index 0720be0..1c0358d 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1622,7 +1622,7 @@ class LineSource(PointSource):
     direction = Tuple((0.0, 0.0, 1.0), desc='Line orientation ')
 
     #: Vector to define the length of the line source in meters. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of monopole sources in the line source. Default is ``1``.
     num_sources = Int(1)
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 7c1c22a..edbc4cd 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -543,7 +543,7 @@ class AngleTracker(MaskedTimeOut):
     interp_points = Int(4, desc='Points of interpolation used for spline')
 
     # rotation angle in radians for first trigger position
-    start_angle = Float(0, desc='rotation angle for trigger position')
+    start_angle = Float(0.0, desc='rotation angle for trigger position')
 
     # revolutions per minute for each sample, read-only
     rpm = Property(depends_on=['digest'], desc='revolutions per minute for each sample')
@@ -714,7 +714,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     num_IDW = Int(3, desc='number of neighboring microphones, DEFAULT=3')  # noqa: N815
 
     p_weight = Float(
-        2,
+        2.0,
         desc='used in interpolation for virtual microphone, weighting power exponent for IDW',
     )
 
-- 
2.43.0


From 1bba002fd00e5cfe498c4f7e2698187e2edbd853 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:36 +0000
Subject: [PATCH 105/114] fix: BeamformerDamasPlus digest ignored the precision
 of the point spread functions

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index b638838..c4aab09 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1268,7 +1268,7 @@ class BeamformerDamasPlus(BeamformerDamas):
 
     # internal identifier
     digest = Property(
-        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult'],
+        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult', 'psf_precision'],
     )
 
     @cached_property
-- 
2.43.0


From 59beab62d076b6cf5e186167b3dd7a65ecfeca58 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 106/114] fix: IntegratorSectorTime.num_channels follows
 sectors added to or removed from the list

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index f65d5cd..aaa96e6 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -778,7 +778,7 @@ class IntegratorSectorTime(TimeOut):
     clip = Float(-350.0)
 
     #: Number of channels in output (= number of sectors).
-    num_channels = Property(depends_on=['sectors'])
+    num_channels = Property(depends_on=['sectors[]'])
 
     # internal identifier
     digest = Property(
-- 
2.43.0


From c0186d4ceed9ce889293d47e558c01332d4c1252 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:53 +0000
Subject: [PATCH 107/114] fix: SoundDeviceSamplesGenerator.sample_freq follows
 the device unless it was set

---
 acoular/sdinput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 005ff10..f0ff76e 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -80,7 +80,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
 
     def _get_sample_freq(self):
         if self._sample_freq is None:
-            self._sample_freq = sd.query_devices(self.device)['default_samplerate']
+            return sd.query_devices(self.device)['default_samplerate']
         return self._sample_freq
 
     def _set_sample_freq(self, f):
-- 
2.43.0


From 81bbb1c296cb1a5f1ef043a2994427289b9b0c41 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:52 +0000
Subject: [PATCH 108/114] fix: Cache works when several runs of the same data
 are interleaved

---
 acoular/process.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 1c7374f..0d2f376 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -265,6 +265,10 @@ class Cache(InOut):
     def _pass_data(self, num):
         yield from self.source.result(num)
 
+    def _is_node(self, nodename, ac):
+        # another run may have replaced the node in the meantime
+        return self.h5f.is_cached(nodename) and self.h5f.get_data_by_reference(nodename) == ac
+
     def _write_data_to_cache(self, num):
         nodename = 'tc_' + self.digest
         for i, data in enumerate(self.source.result(num)):
@@ -273,10 +277,11 @@ class Cache(InOut):
                 ac = self.h5f.get_data_by_reference(nodename)
                 self.h5f.set_node_attribute(ac, 'sample_freq', self.sample_freq)
                 self.h5f.set_node_attribute(ac, 'complete', False)
-            self.h5f.append_data(ac, data)
-            self.h5f.flush()
+            if self._is_node(nodename, ac):
+                self.h5f.append_data(ac, data)
+                self.h5f.flush()
             yield data
-        if self.h5f.is_cached(nodename):  # not if the source is empty
+        if self.h5f.is_cached(nodename) and self._is_node(nodename, ac):  # not if the source is empty
             self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
@@ -292,22 +297,24 @@ class Cache(InOut):
         ac = self.h5f.get_data_by_reference(nodename)
         i = 0
         nblocks = 0
-        while i + num <= ac.shape[0]:
+        while self._is_node(nodename, ac) and i + num <= ac.shape[0]:
             yield ac[i : i + num]
             nblocks += 1
             i += num
-        self.h5f.remove_data(nodename)
+        if self.h5f.is_cached(nodename):
+            self.h5f.remove_data(nodename)
         for j, data in enumerate(self.source.result(num)):
             if j == 0:
                 self.h5f.create_extendable_array(nodename, (0, data.shape[1]), data.dtype.name)
                 ac = self.h5f.get_data_by_reference(nodename)
                 self.h5f.set_node_attribute(ac, 'sample_freq', self.sample_freq)
                 self.h5f.set_node_attribute(ac, 'complete', False)
-            self.h5f.append_data(ac, data)
+            if self._is_node(nodename, ac):
+                self.h5f.append_data(ac, data)
             if j >= nblocks:
                 self.h5f.flush()
                 yield data
-        if self.h5f.is_cached(nodename):  # not if the source is empty
+        if self.h5f.is_cached(nodename) and self._is_node(nodename, ac):  # not if the source is empty
             self.h5f.set_node_attribute(ac, 'complete', True)
 
     # result generator: delivers input, possibly from cache
-- 
2.43.0


From 2d8cee81fc8060067f8eb733f402095f3d1aecb6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:09 +0000
Subject: [PATCH 109/114] fix: SampleSplitter finds consumers that read through
 a buffer or a generator expression

---
 acoular/process.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 0d2f376..648de75 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -527,6 +527,17 @@ class SampleSplitter(InOut):
     def _remove_buffer_overflow_treatment(self, obj):
         del self.buffer_overflow_treatment[obj]
 
+    def _get_calling_obj(self, frame):
+        # objects may obtain their data with the help of a buffer or another splitter's generator
+        while frame is not None:
+            obj = frame.f_locals.get('self')
+            if obj is not None and not isinstance(obj, (LockedGenerator, SamplesBuffer)):
+                return obj
+            if isinstance(obj, SamplesBuffer) and obj in self.block_buffer:
+                return obj
+            frame = frame.f_back
+        return None
+
     def _assert_obj_registered(self, obj):
         if obj not in self.block_buffer:
             msg = f'calling object {obj} is not registered.'
@@ -665,7 +676,7 @@ class SampleSplitter(InOut):
         - Buffer overflow behavior is controlled by the :attr:`buffer_overflow_treatment` attribute,
           which can be set to ``'error'``, ``'warning'``, or ``'none'``.
         """
-        calling_obj = currentframe().f_back.f_locals['self']
+        calling_obj = self._get_calling_obj(currentframe().f_back)
         self._assert_obj_registered(calling_obj)
 
         with self._start_lock:  # only one of the consumers starts the source
-- 
2.43.0


From 895ab1f712f23ecf44e955ea8827ef99fcd8fcce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:09 +0000
Subject: [PATCH 110/114] fix: IntegratorSectorTime clip does not depend on the
 block size

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index aaa96e6..ee3035c 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -815,7 +815,7 @@ class IntegratorSectorTime(TimeOut):
         for r in self.source.result(num):
             ns = r.shape[0]
             mapshape = (ns,) + gshape
-            rmax = r.max()
+            rmax = r.max(axis=1, keepdims=True)  # clip every sample on its own
             rmin = rmax * 10 ** (self.clip / 10.0)
             r = where(r > rmin, r, 0.0)
             for i, ind in enumerate(inds):
-- 
2.43.0


From 654b3a5514d0bd0fc8b642accdfa663758172997 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:51 +0000
Subject: [PATCH 111/114] fix: digest of MaskedTimeSamples ignored the size of
 the data

---
 acoular/sources.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 1c0358d..0da4573 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -615,7 +615,17 @@ class MaskedTimeSamples(TimeSamples):
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
-        depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum', 'sample_freq']
+        depends_on=[
+            'basename',
+            'start',
+            'stop',
+            'calib.digest',
+            'invalid_channels',
+            '_datachecksum',
+            'sample_freq',
+            'num_channels_total',
+            'num_samples_total',
+        ]
     )
 
     @cached_property
-- 
2.43.0


From b996731cdbf9ae965d84661a733f2b83681eb098 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 112/114] fix: digest after emptying a list of sources or grids
 is that of a list that was never filled

---
 acoular/internal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/internal.py b/acoular/internal.py
index f334ace..ee8b506 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -27,6 +27,8 @@ def digest(obj, name='digest'):
 
 
 def ldigest(obj_list):
+    if not obj_list:
+        return ''  # the same as for a list that was never filled
     str_ = []
     for i in obj_list:
         str_.append(str(i.digest).encode('UTF-8'))
-- 
2.43.0


From 7348171d462917eced2434a6acf967505d5cfb63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:51 +0000
Subject: [PATCH 113/114] fix: PolySector applies abs_tol when the border is
 excluded

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index b4afd8c..85a2468 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1468,7 +1468,7 @@ class PolySector(SingleSector):
         """
         poly = Polygon(array(self.edges).reshape(-1, 2)[:, 0], array(self.edges).reshape(-1, 2)[:, 1])
         dists = poly.is_inside(pos[0, :], pos[1, :])
-        inds = dists >= -self.abs_tol if self.include_border else dists > 0
+        inds = dists >= -self.abs_tol if self.include_border else dists > self.abs_tol
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-- 
2.43.0


From 514a3b979b049b12eb8e04826eed56b7362db8a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:11 +0000
Subject: [PATCH 114/114] fix: PointSpreadFunction marks a column as calculated
 only after it has been stored

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c4aab09..d8cbc75 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1101,8 +1101,8 @@ class PointSpreadFunction(HasStrictTraits):
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
+                gp[ind] = 1
                 indh += 1
 
     def _psf_call(self, ind):
-- 
2.43.0

