From 3d55a336e1fe129369d4b278857d8c1845dd8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 01/45] fix: let NumPy operators defer to the operators of
 signals, spectrums and spectrograms

---
 sumpf/_data/_sampled_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_data/_sampled_data.py b/sumpf/_data/_sampled_data.py
index 1bb5c52..f1255d1 100644
--- a/sumpf/_data/_sampled_data.py
+++ b/sumpf/_data/_sampled_data.py
@@ -23,6 +23,8 @@ import sumpf._internal as sumpf_internal
 class SampledData:
     """Base class for data containers with channels of sampled data and labels."""
 
+    __array_ufunc__ = None  # makes NumPy's operators return NotImplemented, so that the right hand side operators of this class are called, when a NumPy array or number is on the left
+
     def __init__(self, channels, labels):
         """
         :param channels: a two-dimensional :func:`numpy.array`
-- 
2.43.0


From 8a743ba74a3fb6d6927362918a9fb22ea828be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 02/45] fix: slice the last element with the index -1 and clamp
 out of range slice starts in the offset

---
 sumpf/_data/_signals/_signal.py           | 5 +----
 sumpf/_data/_spectrograms/_spectrogram.py | 5 +----
 sumpf/_internal/_indexing.py              | 2 +-
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index cb9a430..212dba7 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -107,10 +107,7 @@ class Signal(SampledData):
         offset = self.__offset
         if isinstance(slices, tuple):
             if slices[1].start:
-                if slices[1].start < 0:
-                    offset += self._length + slices[1].start
-                else:
-                    offset += slices[1].start
+                offset += slices[1].indices(self._length)[0]
             c = slices[0]
         else:
             c = slices
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 69522b2..63dc1f7 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -112,10 +112,7 @@ class Spectrogram(SampledData):
         if isinstance(slices, tuple):
             if len(slices) == 3:
                 if slices[2].start:
-                    if slices[2].start < 0:
-                        offset += self._length + slices[2].start
-                    else:
-                        offset += slices[2].start
+                    offset += slices[2].indices(self._length)[0]
             c = slices[0]
         else:
             c = slices
diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 009e393..d739a5a 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -54,7 +54,7 @@ def key_to_slices(key, shape):
     :returns: a slice or a tuple of slices, if the shape is multidimensional
     """
     if isinstance(key, int):
-        return slice(key, key + 1)
+        return slice(key, key + 1 if key != -1 else None)   # a stop index of 0 would lead to an empty slice for the last element
     elif isinstance(key, float):
         key = index(key, (shape[0] - 1))
         return slice(key, key + 1)
-- 
2.43.0


From 5da21be1232115e5ddddc9e65f8b5c441da3b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 03/45] fix: a highpass in one channel of a filter must not
 zero the other channels at 0 Hz

---
 sumpf/_data/_filters/_base/_filter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 028bc70..dba8b11 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -150,11 +150,10 @@ class Filter:
                   is a number or an array, if ``frequencies`` is a sequence.
         """
         if not numpy.shape(frequencies):    # create an array if frequencies is a scalar value
-            s = S(numpy.reshape(frequencies, (1, 1)))
-            return tuple(tf(s)[0, 0] for tf in self.__transfer_functions)
+            frequencies = numpy.reshape(frequencies, (1, 1))
+            return tuple(tf(S(frequencies))[0, 0] for tf in self.__transfer_functions)
         else:
-            s = S(frequencies)
-            return tuple(tf(s) for tf in self.__transfer_functions)
+            return tuple(tf(S(frequencies)) for tf in self.__transfer_functions)
 
     def __len__(self):
         """Operator overload for retrieving the filter's number of channels with
@@ -413,10 +412,9 @@ class Filter:
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         frequencies = numpy.linspace(0.0, (length - 1) * resolution, length)
-        s = S(frequencies)
         channels = sumpf_internal.allocate_array(shape=(len(self.__transfer_functions), length), dtype=numpy.complex128)
         for tf, c in zip(self.__transfer_functions, channels):
-            tf(s, out=c)
+            tf(S(frequencies), out=c)   # do not share the S instance between the channels, because a highpass in one channel modifies it
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=self.__labels)
 
     #######################
-- 
2.43.0


From 594635167aea4832bd53603c5761cac138d9ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 04/45] fix: let NumPy numbers and unsupported operands on the
 left of a filter not hang or create invalid filters

---
 sumpf/_data/_filters/_base/_filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index dba8b11..a83d5d6 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -119,6 +119,8 @@ class Filter:
     # supported file formats
     file_formats = sumpf_internal.filter_writers.FilterFormats  #: an enumeration with file formats, whose flags can be passed to :meth:`~sumpf.Filter.save`
 
+    __array_ufunc__ = None  # makes NumPy's operators return NotImplemented, so that the right hand side operators of this class are called, when a NumPy number is on the left
+
     def __init__(self, transfer_functions=(Constant(1.0),), labels=("",)):
         """
         :param transfer_functions: a sequence of transfer functions (terms), one for each channel
@@ -296,6 +298,8 @@ class Filter:
 
     def __rsub__(self, other):
         """Right hand side operator overload for subtracting this from a number."""
+        if not isinstance(other, (int, float, complex)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number - tf for tf in self.__transfer_functions),
                       labels=self.__labels)
@@ -364,6 +368,8 @@ class Filter:
 
     def __rtruediv__(self, other):
         """Right hand side operator overload for dividing a number by this."""
+        if not isinstance(other, (int, float, complex)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number / tf for tf in self.__transfer_functions),
                       labels=self.__labels)
-- 
2.43.0


From 1b2bd0d3681d47ab483c30b128dad9e073ecbc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 05/45] fix: apply the transform in the factory for a
 difference with a zero minuend

---
 sumpf/_data/_filters/_base/_terms/_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 92600f5..60a0d0d 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -165,7 +165,7 @@ class Difference(Term):
             else:
                 return minuend
         elif minuend.is_zero():
-            return -subtrahend
+            return -(subtrahend.invert_transform() if transform else subtrahend)
         elif minuend == subtrahend:
             return Constant(0.0)
         else:
-- 
2.43.0


From 623931d64133215cdfbd94ee85fc2a8ba187007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 06/45] fix: compare bands terms with different numbers of
 bands without an error

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 4a194a5..a567bcc 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -512,8 +512,8 @@ class Bands(Term):
             return False
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
-              numpy.not_equal(self.xs, other.xs).any() or
-              numpy.not_equal(self.ys, other.ys).any()):
+              not numpy.array_equal(self.xs, other.xs) or
+              not numpy.array_equal(self.ys, other.ys)):
             return False
         return super().__eq__(other)
 
-- 
2.43.0


From eb068e5b7083a1687f23ae86257db6a35dc3ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 07/45] fix: keep the shape of empty data sets in their textual
 representations

---
 sumpf/_data/_signals/_signal.py           | 3 ++-
 sumpf/_data/_spectrograms/_spectrogram.py | 3 ++-
 sumpf/_data/_spectrums/_spectrum.py       | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 212dba7..6b9de57 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -139,7 +139,8 @@ class Signal(SampledData):
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        shape = "" if self._channels.size else f".reshape({self._channels.shape})"  # the representation of an empty array does not show its shape
+        return (f"{self.__class__.__name__}(channels=array({channels}){shape}, "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
                 f"labels={self._labels})")
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 63dc1f7..23003a9 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -145,7 +145,8 @@ class Spectrogram(SampledData):
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        shape = "" if self._channels.size else f".reshape({self._channels.shape})"  # the representation of an empty array does not show its shape
+        return (f"{self.__class__.__name__}(channels=array({channels}){shape}, "
                 f"resolution={self.__resolution}, "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 5a64aeb..7fdce7c 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -127,7 +127,8 @@ class Spectrum(SampledData):
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        shape = "" if self._channels.size else f".reshape({self._channels.shape})"  # the representation of an empty array does not show its shape
+        return (f"{self.__class__.__name__}(channels=array({channels}){shape}, "
                 f"resolution={self.__resolution!r}, "
                 f"labels={self._labels})")
 
-- 
2.43.0


From 757d2088a5d415691e2a2563f7b5b6e9c2aff714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 08/45] fix: weight the edges of the integration interval in
 level_vs_time by their coverage

---
 sumpf/_data/_signals/_signal.py | 46 +++++++++------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 6b9de57..ef7de9f 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -604,7 +604,7 @@ class Signal(SampledData):
         half_window_length_float = (window_length - 1.0) / 2.0
         half_window_length = int(math.ceil(half_window_length_float))
         channels = sumpf_internal.allocate_array(shape=self._channels.shape)
-        if 1 + half_window_length >= self._length:
+        if 1 + half_window_length_float >= self._length:
             # if half the integration time is longer than the whole signal, the level is constant over time
             if pad:
                 levels = numpy.linalg.norm(self._channels, axis=1) / math.sqrt(window_length)
@@ -614,43 +614,21 @@ class Signal(SampledData):
                 c[:] = l
         else:
             # generate a window, that does the averaging of the squared signal
-            remainder = half_window_length - half_window_length_float
             window = numpy.full(1 + 2 * half_window_length, 1.0 / window_length)
-            if remainder:
-                corner = remainder / window_length
+            remainder = half_window_length - half_window_length_float
+            if remainder:   # the samples at the edges of the integration interval are only partially covered by it
+                corner = (1.0 - remainder) / window_length
                 window[0] = corner
                 window[-1] = corner
+            # compute the levels by convolving the squared signal with the window
             square = numpy.square(self._channels)
-            if len(window) < self._length:
-                # compute the levels by convolving the squared signal with the window
-                for s, c in zip(square, channels):
-                    numpy.sqrt(numpy.convolve(s, window, mode="same"), out=c)
-                if not pad:
-                    # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
-                    effective_window_lengths = numpy.linspace(1 + half_window_length_float,
-                                                              half_window_length + half_window_length_float,
-                                                              half_window_length)
-                    correction = numpy.sqrt(window_length / effective_window_lengths)
-                    channels[:, 0:half_window_length] *= correction
-                    channels[:, -half_window_length:] *= correction[::-1]
-            else:
-                # if the window is longer than the signal itself, there is no sample, that is computed with a whole integration window
-                a = (len(window) + 1 - self._length) // 2
-                b = a + self._length
-                for s, c in zip(square, channels):
-                    numpy.sqrt(numpy.convolve(s, window, mode="same")[a:b], out=c)
-                if not pad:
-                    # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
-                    correction = numpy.empty(self._length)
-                    correction[0:half_window_length] = numpy.linspace(1 + half_window_length_float,
-                                                                      half_window_length + half_window_length_float,
-                                                                      half_window_length)
-                    half_correction = correction[0:(self._length + 1) // 2]
-                    numpy.clip(half_correction, a_min=0, a_max=self._length, out=half_correction)
-                    numpy.divide(window_length, half_correction, out=half_correction)
-                    numpy.sqrt(half_correction, out=half_correction)
-                    correction[self._length - 1:(self._length + 1) // 2 - 1:-1] = correction[0:self._length // 2]   # copy the first half of the correction to the second half and reverse it
-                    channels *= correction
+            for s, c in zip(square, channels):
+                numpy.sqrt(numpy.convolve(s, window, mode="full")[half_window_length:half_window_length + self._length], out=c)
+            if not pad:
+                # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
+                covered = numpy.minimum(numpy.arange(self._length), half_window_length_float)   # the part of the integration interval before each sample, that is covered by the signal
+                effective_window_lengths = covered + 1.0 + covered[::-1]
+                channels *= numpy.sqrt(window_length / effective_window_lengths)
         return sumpf.Signal(channels=channels,
                             sampling_rate=self.__sampling_rate,
                             offset=self.__offset,
-- 
2.43.0


From fa2e28961b13599eb1f9a294b803898d097966f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 09/45] fix: do not skip the first block of a block-wise
 Fourier transform, when the window is longer than the signal

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index ef7de9f..348f5fd 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -471,7 +471,7 @@ class Signal(SampledData):
                     numpy.exp(compensation, out=compensated)
                     compensated *= spectrum
                     channels += compensated
-            i = 0
+            i = -step   # if the window is longer than the signal, the following loop is not executed, so that the padding of the end starts with the block at 0
             for i in range(0, self._length - window_length + 1, step):
                 numpy.multiply(self._channels[:, i:window_length + i],
                                window_channels,
-- 
2.43.0


From f05a65d62782f833e83b8b3ed078a758d4dad732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 10/45] fix: compute the phase for the remainder of the offset
 in the short time Fourier transform with the bins' frequencies

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 348f5fd..7df5a71 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -554,7 +554,7 @@ class Signal(SampledData):
         offset = int(round(self.__offset / step))
         offset_remainder = self.__offset - (offset * step)
         if offset_remainder:
-            max_frequency = (window_length - 1) * resolution
+            max_frequency = (window_length // 2) * resolution
             compensation = numpy.linspace(0.0, max_frequency, window_length // 2 + 1, dtype=numpy.complex128)
             compensation *= -1j * 2.0 * math.pi * (offset_remainder / self.__sampling_rate)
             numpy.exp(compensation, out=compensation)
-- 
2.43.0


From 4a5c660859e2e4f49c88d49537f0b7de0ee0f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 11/45] fix: compute the level of spectrums with only one
 frequency bin

---
 sumpf/_data/_spectrums/_spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 7fdce7c..c1692a0 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -380,6 +380,8 @@ class Spectrum(SampledData):
         signal_length = max(1, (self._length - 1) * 2)
         abs_ = numpy.abs(self._channels)
         square = numpy.square(abs_, out=abs_)
+        if self._length == 1:   # the first and the last frequency bin are the same, so they must not be counted twice
+            square *= 0.5
         if single_value:
             sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1])) for c in square)
             return math.sqrt(sum_ / len(self)) / signal_length
-- 
2.43.0


From 0ad5cba73c2803dbb1c82db17f96ae8a49ca267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 12/45] fix: harmonic_impulse_response overwrote samples of the
 given impulse response

---
 sumpf/_data/_signals/_sweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d25717b..d233010 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -225,10 +225,12 @@ class BaseExponentialSweep(Sweep):
                 else:
                     channels = channels[:, 0:length]
         elif remaining_delay is not None:
+            new_channels = sumpf_internal.allocate_array(shape=channels.shape)
             apply_delay(channels=channels,
                         sampling_rate=sampling_rate,
                         delay=remaining_delay,
-                        out=channels)
+                        out=new_channels)
+            channels = new_channels
         # return the impulse response of the harmonic
         h = sumpf_internal.counting_number(harmonic)
         return Signal(channels=channels,
-- 
2.43.0


From 8c9a2e1e792e782aefcc3f7f911d2a393b91182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 13/45] fix: harmonic_impulse_response ignored the requested
 length, when the harmonic had less samples than channels

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d233010..2392092 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -214,7 +214,7 @@ class BaseExponentialSweep(Sweep):
                                 delay=remaining_delay,
                                 out=new_channels)
                 channels = new_channels
-            elif harmonic_length > channel_count:
+            else:
                 if remaining_delay is not None:
                     new_channels = sumpf_internal.allocate_array(shape=(channel_count, length))
                     apply_delay(channels=channels,
-- 
2.43.0


From 7808621c13730055cac040fd0d5bdcbf99d6115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 14/45] fix: harmonic_impulse_response applied a wrong
 sub-sample delay to impulse responses of an odd length

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 2392092..549c401 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -72,7 +72,7 @@ def apply_delay(channels, sampling_rate, delay, out):
     """
     if channels.size:
         spectrum = numpy.fft.rfft(channels)
-        f = numpy.linspace(0.0, sampling_rate / 2.0, spectrum.shape[-1])
+        f = numpy.fft.rfftfreq(channels.shape[-1], 1.0 / sampling_rate)
         spectrum *= numpy.exp(2j * math.pi * f * delay)
         signal = numpy.fft.irfft(spectrum, n=channels.shape[-1])
         out[:, 0:signal.shape[1]] = signal[:, 0:out.shape[1]]
-- 
2.43.0


From 2d3a7ffd4d896122ced647c999245c0a0e0ad53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 15/45] fix: read NumPy's npy files with recent Python versions

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 +-
 sumpf/_internal/_persistence/_signal_readers.py   | 2 +-
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 5b590cd..7b650cb 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -298,7 +298,7 @@ class NumpyReader(Reader):
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
                 labels = tuple(data["labels"])
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager
             array = numpy.load(path).transpose()
             frequencies = array[0].real
             channels = array[1:]
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 58c925e..e93fab8 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -150,7 +150,7 @@ class NumpyReader(Reader):
         try:
             with numpy.load(path) as data:
                 return from_dict(data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(time_column=array[0],
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8f72e0b..9d41d18 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -177,7 +177,7 @@ class NumpyReader(Reader):
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
                 return from_dict(channels, data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(frequency_column=array[0].real,
-- 
2.43.0


From f32219317e60130ac3331b85d1fe87fbd3d623ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 16/45] fix: load the meta data from npz files as numbers
 instead of mutable arrays

---
 sumpf/_internal/_persistence/_signal_readers.py      | 4 ++--
 sumpf/_internal/_persistence/_spectrogram_readers.py | 6 +++---
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index e93fab8..59f05c1 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -40,8 +40,8 @@ def from_dict(dictionary):
     else:
         channels = numpy.empty(shape=(1, 0))
     return sumpf.Signal(channels=channels,
-                        sampling_rate=dictionary.get("sampling_rate", 48000.0),
-                        offset=dictionary.get("offset", 0),
+                        sampling_rate=numpy.asarray(dictionary.get("sampling_rate", 48000.0)).item(),
+                        offset=numpy.asarray(dictionary.get("offset", 0)).item(),
                         labels=dictionary.get("labels", ()))
 
 
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index a204bf7..2ed67ff 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -30,9 +30,9 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 def from_dict(channels, dictionary):
     """Deserializes a spectrogram from a dictionary."""
     return sumpf.Spectrogram(channels=channels,
-                             resolution=dictionary.get("resolution", 1.0),
-                             sampling_rate=dictionary.get("sampling_rate", 48000.0),
-                             offset=dictionary.get("offset", 0),
+                             resolution=numpy.asarray(dictionary.get("resolution", 1.0)).item(),
+                             sampling_rate=numpy.asarray(dictionary.get("sampling_rate", 48000.0)).item(),
+                             offset=numpy.asarray(dictionary.get("offset", 0)).item(),
                              labels=dictionary.get("labels", ()))
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 9d41d18..06e443b 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -32,7 +32,7 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 def from_dict(channels, dictionary):
     """Deserializes a spectrum from a dictionary."""
     return sumpf.Spectrum(channels=channels,
-                          resolution=dictionary.get("resolution", 1.0),
+                          resolution=numpy.asarray(dictionary.get("resolution", 1.0)).item(),
                           labels=dictionary.get("labels", ()))
 
 
-- 
2.43.0


From 822a16d8542c884e8696b2101b6d14b9b2e73f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 17/45] fix: read tables of bands with short exponential
 numbers, upper case exponents and lines with less columns

---
 sumpf/_internal/_persistence/_filter_readers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 7b650cb..899635e 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -195,7 +195,7 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
+        unsigned = r"(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)"
         real = f"(?:-?{unsigned})"
         complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
         complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
@@ -212,6 +212,8 @@ class TableReader(Reader):
                     if not (line[0].isdigit() or nan_mask.match(line)):
                         raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
                     for i, (match, bands) in enumerate(itertools.zip_longest(mask.finditer(line), all_bands)):
+                        if match is None:   # this line has less columns than a previous one
+                            break
                         g, p, c, r, n = match.groups()[1:]  # find out, what kind of number (real, gnuplot, ...) is found by checking which group is not None
                         if i == 0:
                             if r is not None:
-- 
2.43.0


From 9a1beedb4d20df25c543b13ad3ad24991e7e7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 18/45] fix: clip the samples, when saving them as integers, so
 that full scale samples can be saved

---
 sumpf/_internal/_persistence/_signal_writers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b75f1ba..d4d040d 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -256,6 +256,7 @@ class StandardLibraryWriter:
         total_chunk_size = (number_of_channels * chunk_size)
         mask = f"{self.__endianness}{total_chunk_size}{self.__sample_mask}"
         array = numpy.empty(number_of_channels * chunk_size)
+        minimum, maximum = (-self.__factor, self.__factor - 1) if self.__signed else (0, 2 * self.__factor - 1)
         with self.__module.open(path, "wb") as f:
             f.setnchannels(number_of_channels)
             f.setsampwidth(self.__bytes_per_sample)
@@ -267,7 +268,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), minimum, maximum).astype(int))
                 f.writeframes(chunk)
                 i += chunk_size
             remaining_samples = number_of_samples - i
@@ -283,7 +284,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), minimum, maximum).astype(int))
                 f.writeframes(chunk)
 
 
-- 
2.43.0


From 588df7038187a31232e8ce4636af60df3fae7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 19/45] fix: keep the shape of spectrograms without samples,
 when loading them from JSON files

---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 2ed67ff..381b878 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -73,13 +73,13 @@ class JsonReader(Reader):
                                 numpy.multiply(1j, c["imaginary"], out=channels[i])
                                 numpy.add(channels[i], c["real"], out=channels[i])
                         else:
-                            channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                            channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0, 0), dtype=numpy.complex128)
                 else:
-                    channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                    channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             else:
-                channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             return from_dict(channels, data)
 
 
-- 
2.43.0


From 30d6157b60f056fcb2b1e28c88a98d893c66fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 20/45] fix: keep the number of channels of spectrums without
 samples, when loading them from JSON files

---
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 06e443b..ab6792f 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -154,7 +154,7 @@ class JsonReader(Reader):
                             numpy.multiply(1j, c["imaginary"], out=channels[i])
                             numpy.add(channels[i], c["real"], out=channels[i])
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
                     channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
             else:
-- 
2.43.0


From da837ef53cbd2cf9e17c2a4b05422b54057e9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 21/45] fix: do not load text or truncated files, that contain
 no table, as empty data sets

---
 sumpf/_internal/_persistence/_filter_readers.py   | 4 ++++
 sumpf/_internal/_persistence/_signal_readers.py   | 2 ++
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 899635e..d69451c 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -236,6 +236,8 @@ class TableReader(Reader):
                                 elif g is not None:     # a complex number in gnuplot syntax found
                                     real, imaginary = g.lstrip("{").rstrip("}").split(",")
                                     bands[frequency] = float(real.strip()) + 1j * float(imaginary.strip())
+        if len(all_bands) == 1:
+            raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
         filename = os.path.split(path)[-1]
         return sumpf.Bands(bands=all_bands[1:],
                            labels=[f"{filename} {i}" for i in range(1, len(all_bands))])
@@ -268,6 +270,8 @@ class CsvReader(Reader):
             # read the frequency samples
             for current_row in reader:
                 self.__process_row(bands, current_row)
+            if not any(bands) and first_row[0] not in ("frequency", ""):
+                raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
             # create the Filter instance
         return sumpf.Bands(bands=bands, labels=labels)
 
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 59f05c1..d591083 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -118,6 +118,8 @@ class CsvReader(Reader):
             for row in reader:
                 time_samples.append(float(row[0]))
                 rows.append([float(c) for c in row[1:]])
+            if not any(rows) and first_row[0] != "time":
+                raise ValueError("The file does not seem to be a tabular representation of a signal")
             return from_rows(time_column=time_samples,
                              data_rows=numpy.transpose(rows),
                              labels=labels)
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index ab6792f..785117d 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -127,6 +127,8 @@ class CsvReader(Reader):
             for row in reader:
                 frequency_samples.append(float(row[0]))
                 rows.append([complex(c) for c in row[1:]])
+            if not any(rows) and first_row[0] != "frequency":
+                raise ValueError("The file does not seem to be a tabular representation of a spectrum")
             return from_rows(frequency_column=frequency_samples,
                              data_rows=numpy.transpose(rows),
                              labels=labels)
-- 
2.43.0


From f3657a37e91fb616459f466d9abc6a1c2c82d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 22/45] fix: read u-law and a-law encoded AIFF files with the
 byte order, in which they are decoded

---
 sumpf/_internal/_persistence/_signal_readers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index d591083..2235791 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -213,9 +213,13 @@ class StandardLibraryReader:
             number_of_samples = f.getnframes()
             sample_mask = self.__sample_width_mapping[f.getsampwidth()]
             signed = sample_mask.islower()  # specifies, if the integers in the file are signed or not
+            if f.getcomptype() in (b"ulaw", b"ULAW", b"alaw", b"ALAW"):     # the samples are decoded to the byte order of the machine
+                endianness = "="
+            else:
+                endianness = self.__endianness
             channels = allocate_array(shape=(number_of_channels, number_of_samples))
             total_chunk_size = (number_of_channels * chunk_size)
-            mask = f"{self.__endianness}{total_chunk_size}{sample_mask}"
+            mask = f"{endianness}{total_chunk_size}{sample_mask}"
             factor = 1.0 / (2 ** (8 * f.getsampwidth() - 1))    # maps the maximum value of the integers from the file to 1.0
             i = 0
             while i + chunk_size < number_of_samples:
@@ -227,7 +231,7 @@ class StandardLibraryReader:
             remaining_samples = number_of_samples - i
             if remaining_samples:
                 remaining_chunk_size = (number_of_channels * remaining_samples)
-                remaining_mask = f"{self.__endianness}{remaining_chunk_size}{sample_mask}"
+                remaining_mask = f"{endianness}{remaining_chunk_size}{sample_mask}"
                 chunk = struct.unpack(remaining_mask, f.readframes(remaining_samples))
                 decoded = numpy.multiply(chunk, factor)
                 for c in range(number_of_channels):
-- 
2.43.0


From 00cc8ac08096b0de675fac8d25d21855f4056a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 23/45] fix: restore infinite samples from JSON files

---
 sumpf/_internal/_persistence/_filter_readers.py      | 5 ++---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 4 ++--
 sumpf/_internal/_persistence/_spectrum_readers.py    | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index d69451c..7e81bbd 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -66,9 +66,8 @@ def term_from_dict(dictionary):
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
-                    a[:] = imaginary
-                    a *= 1j
-                    a += real
+                    a.real = real
+                    a.imag = imaginary
                     parameters[name] = a
                 else:
                     parameters[name] = parameter
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 381b878..7df13c4 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -70,8 +70,8 @@ class JsonReader(Reader):
                                                              number_of_samples),
                                                       dtype=numpy.complex128)
                             for i, c in enumerate(data["channels"]):
-                                numpy.multiply(1j, c["imaginary"], out=channels[i])
-                                numpy.add(channels[i], c["real"], out=channels[i])
+                                channels[i].real = c["real"]
+                                channels[i].imag = c["imaginary"]
                         else:
                             channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 785117d..751dfb1 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -153,8 +153,8 @@ class JsonReader(Reader):
                     if number_of_samples:
                         channels = allocate_array(shape=(number_of_channels, number_of_samples), dtype=numpy.complex128)
                         for i, c in enumerate(data["channels"]):
-                            numpy.multiply(1j, c["imaginary"], out=channels[i])
-                            numpy.add(channels[i], c["real"], out=channels[i])
+                            channels[i].real = c["real"]
+                            channels[i].imag = c["imaginary"]
                     else:
                         channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
-- 
2.43.0


From 04a7edcf961320a49e2ba8ab8166d2fb21bd8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 24/45] fix: associate the AifcReader with the endings of AIFF
 files

---
 sumpf/_internal/_persistence/_signal_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 2235791..337fa61 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -258,7 +258,7 @@ class WaveReader(StandardLibraryReader, Reader):
 
 class AifcReader(StandardLibraryReader, Reader):
     """Loads integer aiff files with the help of the :mod:`aifc` module."""
-    extensions = (".wav",)
+    extensions = (".aiff", ".aifc", ".aif")
 
     def __init__(self):
         StandardLibraryReader.__init__(self,
-- 
2.43.0


From d3583ffdd97fdd1862f370c6abfc69edbd3c18cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 25/45] fix: save filters with complex numbers or with integer
 frequencies and band values in JSON files

---
 .../_data/_filters/_base/_terms/_primitive.py | 31 +++++++++++++------
 .../_internal/_persistence/_filter_readers.py |  2 +-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index a567bcc..32bef2d 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -26,6 +26,22 @@ from .. import _functions as functions
 __all__ = ("Constant", "Polynomial", "Exp", "Bands")
 
 
+def serialize(values):
+    """A helper function for the dictionary serialization of the terms, which
+    converts a number or a sequence of numbers to a structure, that can be stored
+    in a JSON file.
+
+    :param values: a number or a sequence of numbers
+    :returns: a number, a tuple of numbers or, for complex values, a dictionary
+              with the numbers for the real and the imaginary part
+    """
+    array = numpy.asarray(values)
+    if numpy.iscomplexobj(array):
+        return {"real": serialize(numpy.real(array)), "imaginary": serialize(numpy.imag(array))}
+    result = array.tolist()
+    return tuple(result) if isinstance(result, list) else result
+
+
 class Constant(Term):
     """A class for defining a constant transfer function, that does not depend on the frequency."""
 
@@ -162,7 +178,7 @@ class Constant(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Constant",
-                "value": self.value}
+                "value": serialize(self.value)}
 
 
 class Polynomial(Term):
@@ -305,7 +321,7 @@ class Polynomial(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Polynomial",
-                "coefficients": tuple(self.coefficients),
+                "coefficients": serialize(self.coefficients),
                 "transform": self.transform}
 
 
@@ -381,7 +397,7 @@ class Exp(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Exp",
-                "coefficient": self.coefficient,
+                "coefficient": serialize(self.coefficient),
                 "transform": self.transform}
 
 
@@ -610,13 +626,8 @@ class Bands(Term):
 
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
-        if self.ys.dtype in (numpy.complex128, numpy.complex256, numpy.complex64):
-            ys = {"real": tuple(numpy.real(self.ys)),
-                  "imaginary": tuple(numpy.imag(self.ys))}
-        else:
-            ys = tuple(self.ys)
         return {"type": "Bands",
-                "xs": tuple(self.xs),
-                "ys": ys,
+                "xs": serialize(self.xs),
+                "ys": serialize(self.ys),
                 "interpolation": int(self.interpolation),
                 "extrapolation": int(self.extrapolation)}
diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 7e81bbd..fc3d63a 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -68,7 +68,7 @@ def term_from_dict(dictionary):
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
                     a.real = real
                     a.imag = imaginary
-                    parameters[name] = a
+                    parameters[name] = a if a.shape else complex(a)
                 else:
                     parameters[name] = parameter
             elif isinstance(parameter, collections.abc.Iterable):
-- 
2.43.0


From 17da140fed466d1878f2a956ffd1fadc0634c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 26/45] fix: save filters of derived classes as a
 representation, that can be loaded

---
 sumpf/_internal/_persistence/_filter_writers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index c9e9ae9..8e82c17 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -21,6 +21,7 @@ import enum
 import json
 import pickle
 import numpy
+import sumpf
 import sumpf._internal as sumpf_internal
 from ._auto_writer import AutoWriter
 
@@ -130,7 +131,7 @@ class TableWriter:
         for i, tf in enumerate(tfs):
             if not isinstance(tf, sumpf_internal.filter_terms.Bands):
                 raise ValueError("Only filters with transfer functions of type sumpf.Filter.Bands can be saved in this format.")    # pylint: disable=line-too-long
-            frequencies = tf.xs
+            frequencies = [float(f) for f in tf.xs]     # NumPy's integers would be written like complex numbers
             for f, y in zip(frequencies, tf.ys):
                 if f not in bands:
                     band = [None] * i
@@ -422,6 +423,10 @@ class ReprWriter(Writer):
         :param data: the :class:`~sumpf.Filter` instance
         :param path: the path of the file, in which the filter shall be saved
         """
+        if not isinstance(filter_, sumpf.Bands):
+            # the representations of filters of a derived class cannot be evaluated, because
+            # they pass the transfer functions to the constructor of the derived class
+            filter_ = sumpf.Filter(transfer_functions=filter_.transfer_functions(), labels=filter_.labels())
         with open(path, "w") as f:
             f.write(repr(filter_))
 
-- 
2.43.0


From eefe0a734ea5ba40174cfe8e7f24cb7aea754a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 27/45] fix: do not merge data sets of different types

---
 sumpf/_blocks/_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumpf/_blocks/_merge.py b/sumpf/_blocks/_merge.py
index bc194f0..2027b45 100644
--- a/sumpf/_blocks/_merge.py
+++ b/sumpf/_blocks/_merge.py
@@ -66,6 +66,9 @@ class Merge:
             return next(iter(self.__data.values()))  # simply return the first and only data set
         else:
             first = next(iter(self.__data.values()))
+            for type_ in (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram, sumpf.Filter):
+                if isinstance(first, type_) and not all(isinstance(s, type_) for s in self.__data.values()):
+                    raise ValueError("Cannot merge data sets of different types")
             number_of_channels = sum(len(s) for s in self.__data.values())
             labels = [""] * number_of_channels
             if isinstance(first, sumpf.Signal):
-- 
2.43.0


From 1fe7ee238ecd477f5c61983662d9e0456887f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 28/45] fix: concatenate real and complex data sets, and those
 with different number formats

---
 sumpf/_blocks/_concatenate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index e6da5c6..8bb6ea2 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -16,6 +16,7 @@
 
 """Contains the :class:`~sumpf.Concatenate` class."""
 
+import numpy
 import connectors
 import sumpf
 import sumpf._internal as sumpf_internal
@@ -68,6 +69,9 @@ class Concatenate:
                 index = start + s.length()
                 indices.append((start, index, s.channels()))
                 number_of_channels = max(number_of_channels, len(s))
+            if len({len(i[2].shape) for i in indices}) != 1:
+                raise ValueError("Cannot concatenate signals and spectrograms")
+            dtype = numpy.result_type(numpy.float64, *(i[2].dtype for i in indices))
             indices.sort(key=lambda t: (t[0], t[1]))
             # allocate an array for the concatenated channels and copy the first data set
             offset = min(i[0] for i in indices)
@@ -78,7 +82,7 @@ class Concatenate:
             if len(dataset_channels.shape) == 2:
                 signal = True
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 channels[0:len(dataset_channels), start:stop] = dataset_channels
                 if len(dataset_channels) < number_of_channels:
                     channels[len(dataset_channels):, start:stop] = 0.0
@@ -86,7 +90,7 @@ class Concatenate:
                 signal = False
                 number_of_frequencies = max(i[2].shape[1] for i in indices)
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, number_of_frequencies, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 l, f = dataset_channels.shape[0:2]
                 channels[0:l, 0:f, start:stop] = dataset_channels
                 if f < number_of_frequencies:
-- 
2.43.0


From de1585d06aaac9d6a1c884d2aa7154be16c8bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 29/45] fix: flat top windows with one sample are one

---
 sumpf/_data/_signals/_windows_scipy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_windows_scipy.py b/sumpf/_data/_signals/_windows_scipy.py
index 419daac..5621ab0 100644
--- a/sumpf/_data/_signals/_windows_scipy.py
+++ b/sumpf/_data/_signals/_windows_scipy.py
@@ -206,7 +206,9 @@ class FlatTopWindow(Window):
     def _function(self, length):    # noqa: C901; the method is not complex, it's just a long switch case
         # pylint: disable=line-too-long; the coefficient lists may become long
         # pylint: disable=too-many-branches,too-many-return-statements; this is basically a large switch-statement
-        if self.__function == FlatTopWindow.functions.DEFAULT:
+        if length == 1:     # the functions with normalized coefficients do not reach one in this case
+            return numpy.ones(length)
+        elif self.__function == FlatTopWindow.functions.DEFAULT:
             return scipy.signal.windows.flattop(length)
         elif self.__function == FlatTopWindow.functions.SFT3F:
             return scipy.signal.windows.general_cosine(length, (0.26526, 0.5, 0.23474))
-- 
2.43.0


From 1876bf9fe2d33831826f5a331f3b6201fa1fb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 30/45] fix: compute the energy decay curve and the time
 dependent level of integer samples with floating point numbers

---
 sumpf/_data/_signals/_energy_decay.py | 2 +-
 sumpf/_data/_signals/_signal.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_energy_decay.py b/sumpf/_data/_signals/_energy_decay.py
index e4bdf9b..303c9dc 100644
--- a/sumpf/_data/_signals/_energy_decay.py
+++ b/sumpf/_data/_signals/_energy_decay.py
@@ -49,7 +49,7 @@ class EnergyDecayCurve(Signal):
                                  which this energy decay curve shall be computed.
         """
         channels = sumpf_internal.allocate_array(shape=impulse_response.shape())
-        numpy.square(impulse_response.channels(), out=channels)
+        numpy.square(impulse_response.channels(), out=channels, dtype=numpy.float64)
         numpy.cumsum(channels[:, ::-1], axis=1, out=channels[:, ::-1])
         Signal.__init__(self,
                         channels=channels,
diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 7df5a71..2865cd5 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -621,7 +621,7 @@ class Signal(SampledData):
                 window[0] = corner
                 window[-1] = corner
             # compute the levels by convolving the squared signal with the window
-            square = numpy.square(self._channels)
+            square = numpy.square(self._channels, dtype=numpy.float64)
             for s, c in zip(square, channels):
                 numpy.sqrt(numpy.convolve(s, window, mode="full")[half_window_length:half_window_length + self._length], out=c)
             if not pad:
-- 
2.43.0


From a2842bbb9d69129d5ffc1b3811004ad6701a70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 31/45] fix: extrapolate all frequencies of an array, also when
 one of them has no logarithm

The minimum and the maximum of an array with a negative frequency are nan
on a logarithmic axis, so none of the frequencies was extrapolated.
---
 sumpf/_internal/_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_interpolation.py b/sumpf/_internal/_interpolation.py
index 1120521..be645e7 100644
--- a/sumpf/_internal/_interpolation.py
+++ b/sumpf/_internal/_interpolation.py
@@ -152,13 +152,13 @@ def _linear(x, xs, ys, scalar):
                 return numpy.interp(x, xp=xs, fp=ys)
         else:
             result = numpy.interp(x, xp=xs, fp=ys)
-            if x.min() < xs[0]:
-                mask = x < xs[0]
+            mask = x < xs[0]
+            if mask.any():
                 m = (ys[1] - ys[0]) / (xs[1] - xs[0])
                 n = ys[0] - m * xs[0]
                 result[mask] = m * x[mask] + n
-            if x.max() > xs[-1]:
-                mask = x > xs[-1]
+            mask = x > xs[-1]
+            if mask.any():
                 m = (ys[-1] - ys[-2]) / (xs[-1] - xs[-2])
                 n = ys[-1] - m * xs[-1]
                 result[mask] = m * x[mask] + n
-- 
2.43.0


From 03df16f4888232b4b0be34fb473fec9ce4cd7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 32/45] fix: do not play back and record the end of a signal
 twice

After a last block, that was only partially filled, the index was set to the
number of the block's samples, so that the signal was played back again from
there and the recorded samples were overwritten.
---
 sumpf/_blocks/_jack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d461ec..20e0799 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -449,12 +449,12 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:stop_index] = port.get_array()
         elif index < instance._input.length():
-            stop_index = instance._input.length() - index
+            remaining = instance._input.length() - index
             for port, channel in zip(instance._client.outports, channels):
-                port.get_array()[0:stop_index] = channel[index:]
-                port.get_array()[stop_index:] = 0.0
+                port.get_array()[0:remaining] = channel[index:]
+                port.get_array()[remaining:] = 0.0
             for port, channel in zip(instance._client.inports, instance._channels):
-                channel[index:] = port.get_array()[0:stop_index]
+                channel[index:] = port.get_array()[0:remaining]
         else:
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
-- 
2.43.0


From 1ed4c0c41f925c1e38ef1a3c1978b770f76c3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 33/45] fix: send silence after the end of the signal instead
 of repeating its last block

---
 sumpf/_blocks/_jack.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 20e0799..36d6331 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -456,6 +456,8 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:] = port.get_array()[0:remaining]
         else:
+            for port in instance._client.outports:
+                port.get_array()[:] = 0.0
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
                 instance._store_connections()
@@ -463,6 +465,9 @@ def on_process(frames, instance):
             else:
                 return
         instance._index = stop_index
+    else:
+        for port in instance._client.outports:  # JACK does not clear the buffers, so the last block would be repeated
+            port.get_array()[:] = 0.0
 
 
 def on_sampling_rate_change(sampling_rate: int, pass_through):
-- 
2.43.0


From aa2de38bf82cefd4e07e71f0d20fe1c3bb2fa589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 34/45] fix: report the delay of an xrun in seconds

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 36d6331..93c2a88 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -486,7 +486,7 @@ def on_xrun(delay: float, instance):
     old = instance._xruns.output()
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
-                delay=delay * 1e6)    # convert the microseconds to seconds
+                delay=delay * 1e-6)    # convert the microseconds to seconds
     instance._xruns.input((old[0] + 1, xrun))
 
 ##############################
-- 
2.43.0


From cd390cde7e7cd4345a33731f77a32ad6d19b2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 35/45] fix: wait for the automatic deactivation of the JACK
 client, before changing its ports for a new input signal

---
 sumpf/_blocks/_jack.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 93c2a88..17f81e1 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -144,7 +144,7 @@ class Jack:
         :param signal: a :class:`~sumpf.Signal` instance
         :returns: ``self``
         """
-        self._event.wait()  # don't change the signal during a recording
+        self.__wait()       # don't change the signal during a recording
         self._input = signal
         self.__update_output_ports()
         return self
@@ -156,9 +156,7 @@ class Jack:
 
         :returns: a :class:`~sumpf.Signal` instance
         """
-        self._event.wait()
-        if self._auto_deactivate:
-            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
+        self.__wait()
         return sumpf.Signal(channels=self._channels,
                             sampling_rate=self._sampling_rate.output(),
                             offset=self._input.offset(),
@@ -334,6 +332,13 @@ class Jack:
     # private helper methods #
     ##########################
 
+    def __wait(self):
+        """A helper method, that waits until a running recording and the automatic
+        deactivation of the client are finished."""
+        self._event.wait()
+        if self._auto_deactivate:
+            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
+
     def __connect(self, output_port, input_port):
         """A helper method, that checks if the given connection already exists and creates it, if not."""
         o = self.__output_port(output_port, own=False)
-- 
2.43.0


From c630cb3a65ceb814945dc5d33c196b6d96cfd6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 36/45] fix: wait for a running automatic deactivation of the
 JACK client, when enabling the automatic deactivation

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 17f81e1..1faeb0a 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -301,7 +301,7 @@ class Jack:
         """
         self._auto_deactivate = auto
         if self._auto_deactivate:
-            self._event.wait()  # don't deactivate the client during a recording
+            self.__wait()   # don't deactivate the client during a recording
             self._store_connections()
             self._client.deactivate()
         return self
-- 
2.43.0


From 093c99d504bad0cc8380f27f92e452d893a0d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 37/45] fix: prefer the own ports, when another JACK client has
 ports with the same short name

---
 sumpf/_blocks/_jack.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 1faeb0a..d33c403 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -402,10 +402,13 @@ class Jack:
         if isinstance(port, jack.Port):
             return port
         elif isinstance(port, str):
-            ports = self._client.inports if own else self._client.get_ports(is_input=True)
-            for p in ports:
+            for p in self._client.inports:   # other clients can have ports with the same short name
                 if port in (p.shortname, p.name):
                     return p
+            if not own:
+                for p in self._client.get_ports(is_input=True):
+                    if port in (p.shortname, p.name):
+                        return p
             raise ValueError(f"unknown port name: {port}")
         elif isinstance(port, int):
             return self._client.inports[port]
@@ -424,10 +427,13 @@ class Jack:
         if isinstance(port, jack.Port):
             return port
         elif isinstance(port, str):
-            ports = self._client.outports if own else self._client.get_ports(is_output=True)
-            for p in ports:
+            for p in self._client.outports:   # other clients can have ports with the same short name
                 if port in (p.shortname, p.name):
                     return p
+            if not own:
+                for p in self._client.get_ports(is_output=True):
+                    if port in (p.shortname, p.name):
+                        return p
             raise ValueError(f"unknown port name: {port}")
         elif isinstance(port, int):
             return self._client.outports[port]
-- 
2.43.0


From e9f1d091ffd0ea5e7c4316f3c81e5279a9a8fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 38/45] fix: restore connections between the own JACK ports,
 after the output ports have been replaced

---
 sumpf/_blocks/_jack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index d33c403..e973e88 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -355,8 +355,9 @@ class Jack:
         connections = []
         for i, c in enumerate(self._client.outports):
             connections.extend([(i, p) for p in c.connections if not self._client.owns(p)])
+        outports = list(self._client.outports)
         for i, c in enumerate(self._client.inports):
-            connections.extend([(p, i) for p in c.connections])
+            connections.extend([(outports.index(p) if self._client.owns(p) else p, i) for p in c.connections])  # the own output ports can be replaced, so they must not be stored
         if connections:     # connections can be empty, if the client is already deactivated, so we don't want to overwrite the stored connections
             self.__connections = connections
 
-- 
2.43.0


From 12c9d6256926db3f3b4d00363e14f1e47a8e76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 39/45] fix: forget the connections of output ports, that no
 longer exist, because the new input signal has less channels

---
 sumpf/_blocks/_jack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index e973e88..369afad 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -383,6 +383,7 @@ class Jack:
             self._client.outports.clear()
             for label in labels:
                 self._client.outports.register(label)
+            self.__connections = [(o, i) for o, i in self.__connections if not isinstance(o, int) or o < len(labels)]   # forget the connections of channels, that no longer exist
             try:
                 for c in self.__connections:
                     self.__connect(*c)
-- 
2.43.0


From 45a6bedcf2196ffe4f52b4fba8f8acce122e15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 40/45] fix: a missing native library of an optional dependency
 is treated like the missing dependency (JACK-Client and soundfile raise
 OSErrors, when importing them without their shared libraries)

---
 sumpf/_blocks/__init__.py                  | 2 +-
 sumpf/_internal/_persistence/_functions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/__init__.py b/sumpf/_blocks/__init__.py
index 36a03ab..efeb765 100644
--- a/sumpf/_blocks/__init__.py
+++ b/sumpf/_blocks/__init__.py
@@ -24,5 +24,5 @@ from ._merge import *
 
 try:
     from ._jack import *
-except ImportError:
+except (ImportError, OSError):
     pass
diff --git a/sumpf/_internal/_persistence/_functions.py b/sumpf/_internal/_persistence/_functions.py
index 61e7404..e3dda42 100644
--- a/sumpf/_internal/_persistence/_functions.py
+++ b/sumpf/_internal/_persistence/_functions.py
@@ -61,7 +61,7 @@ def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-ma
         if extension in cls.extensions and not any((isinstance(r, cls) for r in readers_list)):
             try:
                 reader = cls()
-            except ImportError:
+            except (ImportError, OSError):
                 continue
             else:
                 readers_list.append(reader)
@@ -76,7 +76,7 @@ def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-ma
         if extension not in cls.extensions and not any((isinstance(r, cls) for r in readers_list)):
             try:
                 reader = cls()
-            except ImportError:
+            except (ImportError, OSError):
                 continue
             else:
                 try:
@@ -113,7 +113,7 @@ def get_writer(file_format, writers, writer_base_class):
             if file_format in cls.formats:
                 try:
                     writer = cls(file_format)
-                except ImportError:
+                except (ImportError, OSError):
                     continue
                 else:
                     writers[file_format] = writer
-- 
2.43.0


From 8f646a0b898d9f7557daf01212d1cc66a8a399dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 41/45] fix: save() raises the documented ValueError, when no
 writer is available for the file's extension

---
 sumpf/_internal/_persistence/_auto_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_auto_writer.py b/sumpf/_internal/_persistence/_auto_writer.py
index 734dbf1..1d72424 100644
--- a/sumpf/_internal/_persistence/_auto_writer.py
+++ b/sumpf/_internal/_persistence/_auto_writer.py
@@ -83,6 +83,6 @@ class AutoWriter:
                 else:
                     self.__extensions.setdefault(extension, []).append(writer)
                     return
-            raise ImportError(f"no library found for writing to a {extension}-file")
+            raise ValueError(f"no library found for writing the data to a {extension}-file")
         # if no compatible writer is associated with the file extension, raise an error
         raise ValueError(f"file format for extension '{extension}' cannot be determined")
-- 
2.43.0


From 4dbb3af28d00de357eb75b0026d8141668978d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 42/45] fix: the block-wise Fourier transform computes
 frequencies and phases with the signal's sampling rate, also if the window
 signal has a different one

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 2865cd5..feca6c0 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -442,14 +442,14 @@ class Signal(SampledData):
         window_length = window.length()
         length = window_length // 2 + 1
         if len(self._channels) == 0 or len(window) == 0 or window_length == 0:  # pylint: disable=len-as-condition; these are numpy arrays, that do not evaluate to False if empty
-            resolution = window.sampling_rate() / max(window_length, 1)
+            resolution = self.__sampling_rate / max(window_length, 1)
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
         else:
             window_channels = window.channels()
             overlap = sumpf_internal.index(overlap, window_length)
-            resolution = window.sampling_rate() / window_length
+            resolution = self.__sampling_rate / window_length
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
-- 
2.43.0


From 494820062aad0c9c28e6ce983bf03c600222f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 43/45] fix: crop the negative frequencies, when loading a
 spectrum from a table, instead of raising an error

---
 sumpf/_internal/_persistence/_spectrum_readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 751dfb1..e54d57d 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -70,9 +70,9 @@ def from_rows(frequency_column, data_rows, labels):     # pylint: disable=too-ma
             channels = allocate_array(shape=numpy.shape(sorted_data_rows), dtype=numpy.complex128)
             channels[:] = sorted_data_rows
         elif offset < 0:
-            channels = allocate_array(shape=numpy.subtract(numpy.shape(sorted_data_rows), (0, offset)),
+            channels = allocate_array(shape=numpy.add(numpy.shape(sorted_data_rows), (0, offset)),
                                       dtype=numpy.complex128)
-            channels[:] = sorted_data_rows[:, offset:]
+            channels[:] = numpy.asarray(sorted_data_rows)[:, -offset:]
         else:
             channels = allocate_array(shape=numpy.add(numpy.shape(sorted_data_rows), (0, offset)),
                                       dtype=numpy.complex128)
-- 
2.43.0


From f2951f6aa9f566b82c79f9af6563074e055033d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 44/45] fix: bands, that are interpolated or extrapolated with
 the constant one, are not treated as zero

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 32bef2d..78b8682 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -492,7 +492,7 @@ class Bands(Term):
 
         :returns: True, if the term evaluates to zero, False otherwise
         """
-        return len(self.xs) == 0 or (self.ys == 0.0).all()
+        return len(self.xs) == 0 or ((self.ys == 0.0).all() and sumpf_internal.Interpolations.ONE not in (self.interpolation, self.extrapolation))
 
     def __repr__(self):
         """Operator overload for using the built-in function :func:`repr` to generate
-- 
2.43.0


From da56686a1ef6978694b1bc5afbaca8c955da0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 45/45] fix: comparing a zero constant with other terms, that
 are zero, is symmetric

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 78b8682..529989c 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -104,9 +104,7 @@ class Constant(Term):
 
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
-        if self.value == 0.0 and other.is_zero():
-            return True
-        elif not isinstance(other, Constant):
+        if not isinstance(other, Constant):
             return False
         elif self.value != other.value:
             return False
-- 
2.43.0

