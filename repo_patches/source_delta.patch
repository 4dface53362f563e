From 58db9467d0536cb86ba02919bb9c9ea0cdd7d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:37 +0000
Subject: [PATCH 01/46] fix: demapping with pn_inv no longer inverts the
 caller's signal in place

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From 21c4593d52f065b4e96d20a31da1bf8d1207520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:37 +0000
Subject: [PATCH 02/46] fix: ml_decoding with error_prob no longer overwrites
 the caller's pattern

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From dc71edef4dd19ca027ccb76132ca3a55acfc9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:37 +0000
Subject: [PATCH 03/46] fix: check_binary rejects two-valued data holding only
 one of 0 and 1

---
 CommDspy/misc/help_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..cdcc3c7 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -4,7 +4,7 @@ def check_binary(pattern):
     data_in = np.unique(pattern)
     if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
+    elif len(data_in) == 2 and (0 not in data_in or 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
     elif len(data_in) > 2:
         raise ValueError('Data in is not binary, please consider other encoding methods')
-- 
2.43.0


From eff5a3577fe5c8b7c3472ef8518b3f15fa8e2ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:37 +0000
Subject: [PATCH 04/46] fix: decoding_differential inverts coding_differential
 for multi-dimensional patterns

---
 CommDspy/rx/decoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..4223566 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -43,8 +43,9 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    |                              +|
                    --------------------------------
         """
+    shape   = pattern.shape
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, shape).astype(int)
 
 def decoding_manchester(pattern):
     """
-- 
2.43.0


From 64f36be9bdf36ac672fdeaaaccdec50fe79a56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:37 +0000
Subject: [PATCH 05/46] fix: decoding_mlt3 accepts multi-dimensional patterns

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 4223566..6effd8d 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -119,7 +119,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From 7479fc8de272d4dbd2af363ca130fa80b7cb8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:37 +0000
Subject: [PATCH 06/46] fix: decoding_bipolar error detection accepts
 multi-dimensional patterns

---
 CommDspy/rx/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 6effd8d..346c034 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -102,7 +102,7 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
@@ -112,7 +112,7 @@ def decoding_bipolar(pattern, error_detection=False):
                 decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
             else:
                 running_sign = np.sign(mark)
-        return decoded_pattern
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
-- 
2.43.0


From 4f1a41040fe2ef5639c13416cb718292e6e9bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 07/46] fix: decoding_bipolar marks a leading run of negative
 marks as -0.5

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 346c034..cf83d0c 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -105,7 +105,7 @@ def decoding_bipolar(pattern, error_detection=False):
         decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
-        mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
+        mark_change     = np.concatenate((pattern_flat[mark_location][:1], np.diff(pattern_flat[mark_location])))
         running_sign    = 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
-- 
2.43.0


From a062cc1eb2d0ccbed60ca5e7bbb524121fe593e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 08/46] fix: symbol2bin accepts a single symbol together with
 the bit flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From 1434414529b4b6efacad023a708bfd8a3211dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 09/46] fix: slicer accepts plain lists and keeps the shape of
 inputs of any dimension

---
 CommDspy/rx/slicer.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 1fdd862..7269b17 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -9,18 +9,7 @@ def slicer(slicer_in_mat, levels=None):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    try:
-        y, x = slicer_in_mat.shape
-    except AttributeError:
-        slicer_im_mat = np.array(slicer_in_mat)
-        try:
-            y, x = slicer_im_mat.shape
-        except ValueError:
-            x = slicer_in_mat.shape[0]
-            y = 0
-    except ValueError:
-        x = slicer_in_mat.shape[0]
-        y = 0
+    out_shape = np.shape(slicer_in_mat)
     if levels is None:
         levels = np.array([-3, -1, 1, 3]).astype(float)
     # ==================================================================================================================
@@ -32,6 +21,6 @@ def slicer(slicer_in_mat, levels=None):
     # Slicing
     # ==================================================================================================================
     constellation_points = np.argmin(diff_mat, axis=1)
-    constellation_points = np.reshape(constellation_points, [y, x]) if y > 0 else np.reshape(constellation_points, [-1])
+    constellation_points = np.reshape(constellation_points, out_shape)
     slicer_out_mat = np.array(levels[constellation_points])
     return slicer_out_mat
-- 
2.43.0


From 4cf5e8b1d7bec8ccc874a73cfc7a350e842c5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 10/46] fix: quantize default fix_point_type is the documented
 'u'

---
 CommDspy/rx/quantiztion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..5eab1c8 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
-- 
2.43.0


From 252aba87df0d2edb51838056185fe7ab403b98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 11/46] fix: quantize applies negative frac_bits as documented

---
 CommDspy/rx/quantiztion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 5eab1c8..648d743 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -42,9 +42,9 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
+    if frac_bits != 0:
         levels = levels.astype(float)
-        levels /= 2**frac_bits
+        levels /= 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From a03de4f17a61cd3587e3630d2991280141130d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:28 +0000
Subject: [PATCH 12/46] fix: ffe_dfe accepts ffe_taps=None as documented

---
 CommDspy/rx/ffe_dfe_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..94bdda5 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -50,6 +50,8 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     # If both FFE and DFE are None, this block is doing nothing
     # ==================================================================================================================
+    if ffe_taps is None:
+        ffe_taps = np.array([1])
     if len(ffe_taps) == 1 and dfe_taps is None:
         return input_signal * ffe_taps
     # ==================================================================================================================
-- 
2.43.0


From 30c86146d5e0716c4a9601f57f58e69e89c4de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:28 +0000
Subject: [PATCH 13/46] fix: ffe_dfe accepts an initial FFE memory of
 len(ffe)-1 and rejects wrong sizes with ValueError

---
 CommDspy/rx/ffe_dfe_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 94bdda5..f3bd9ca 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -66,12 +66,12 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
-- 
2.43.0


From 9a505d35edc6e171516e8d72dc7f2e9f98bb18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:28 +0000
Subject: [PATCH 14/46] fix: ffe_dfe without DFE returns a full FFE memory for
 inputs shorter than the FFE

---
 CommDspy/rx/ffe_dfe_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index f3bd9ca..7a6eabf 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -78,7 +78,7 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     if dfe_taps is None:
         rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        return rx_ffe_out, np.concatenate([zi_ffe, input_signal])[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From 40e502b3549eb03579589b1a2346492acfcbfb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:28 +0000
Subject: [PATCH 15/46] fix: pulse_shape supports the documented 'imp' pulse

---
 CommDspy/channel/pulse_shaping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..6a8aaae 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -151,7 +151,9 @@ def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
     elif method == 'rrc':
         return rrc_pulse(osr, span, beta, t)
     elif method == 'imp':
-        return np.array([1])
+        pulse = np.zeros(osr * span * 2)
+        pulse[0] = 1
+        return pulse
     else:
         raise ValueError('Method is not available, please try another')
 
-- 
2.43.0


From b4a7f71016d93a8f504f1da160b5defc401f0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:28 +0000
Subject: [PATCH 16/46] fix: rcos_pulse handles its removable singularity
 despite rounding, and a zero roll-off

---
 CommDspy/channel/pulse_shaping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 6a8aaae..96d685a 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -93,13 +93,14 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    singular = np.isclose(np.abs(2*beta*t), 1, rtol=0, atol=1e-9)
+    tneq     = t[~singular]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    pulse[singular]  = np.pi/4 * np.sinc(t[singular])
+    pulse[~singular] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
-- 
2.43.0


From dd295edcb1c99534533ea765fe41a8aed496b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:39 +0000
Subject: [PATCH 17/46] fix: dig_delay_rcos_coeffs is finite at the removable
 singularities of the raised cosine

---
 CommDspy/digital_delay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..8ea1c1e 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy.signal import lfilter
+from CommDspy.channel.pulse_shaping import rcos_pulse
 
 def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     """
@@ -81,7 +82,7 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    return rcos_pulse(1, 1, beta, t=ii_vec - float(alpha))
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From d97df05a2e329bffd930515b5c91bb7366ab9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 18/46] fix: buffer with clip removes the zero-padded last
 frame whatever its contents

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..17b90f8 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -115,7 +115,7 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
     if rows_to_remove > 0:
         matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
+    if clip and (matrix.shape[0] - 1) * stride + length > delay + len(signal):
         matrix = matrix[:-1]
     return matrix
 
-- 
2.43.0


From 5f9864d328da01b3b2f45e782da7ac44b8df807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 19/46] fix: Filter and FilterTII do not truncate their output
 to the integer type of the input

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..e6cb110 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros(len(data_chunk), dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros(len(data_chunk), dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
-- 
2.43.0


From d2272146e6fc2eadfba6eab741a25dc0325744eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 20/46] fix: FilterTII and FfeDfeFilterTII support memoryless
 filters

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index e6cb110..7c942fd 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -122,7 +122,7 @@ class FilterTII:
 
     def _process(self, x):
         # Creating y
-        a0_y = self.b[0] * x + self._z[0]
+        a0_y = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         y    = a0_y / self.a[0]
         # Advancing the memory
         z_temp = np.concatenate([self._z[1:], [0]])
@@ -190,7 +190,7 @@ class FfeDfeFilterTII(FilterTII):
 
     def _process(self, x):
         # Creating \tilde{x} and the sliced \hat{x[n]}
-        a0_xtilde = self.b[0] * x + self._z[0]
+        a0_xtilde = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         xtilde = a0_xtilde / self.a[0]
         xhat   = slicer(np.array([xtilde]), self.levels)
         # Advancing the memory
-- 
2.43.0


From 83a82d70fc911e6a6b15d347e5528c8866ab22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:46 +0000
Subject: [PATCH 21/46] fix: pattern locking never returns a truncated pattern
 when rounding favours a repeated alignment

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 0f688b1..683ada3 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -19,7 +19,7 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_nrz, signal_nrz, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
 
 def lock_pattern_to_signal(pattern, signal):
@@ -39,6 +39,6 @@ def lock_pattern_to_signal(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_rep, signal_part, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From a015d411561bd72e0c82627af57da44f2aa0d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:02 +0000
Subject: [PATCH 22/46] fix: channel_estimation_prbs honours pn_inv_postcoding

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e6ed182..8f99157 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -57,7 +57,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
         return True, 0, [0]
     prbs_seq, _ = prbs_generator(poly_coeff, init_seed, 2 * prbs_len)
     prbsq       = bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)
-    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale)
+    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale, pn_inv=pn_inv_postcoding) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postcoding)
     # ==================================================================================================================
     # Locking on the pattern beginning
     # ==================================================================================================================
-- 
2.43.0


From 83d5a4757a9ba16f5fac82c20f79959a5d815311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:02 +0000
Subject: [PATCH 23/46] fix: channel_estimation_prbs without normalize
 estimates the channel at its true gain

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index 8f99157..bf0c48d 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -69,7 +69,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
     shift_idx    = np.concatenate([np.arange(channel_postcursor, prbs_len, 1), np.arange(0, channel_postcursor, 1)])
     reps         = int(np.floor(len(signal) / prbs_len))
     signal_shift = np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)
-    signal_shift = signal_shift[shift_idx] / np.var(signal_shift)
+    signal_shift = signal_shift[shift_idx]
     # ==================================================================================================================
     # Performing least squares to find the channel estimation
     # ==================================================================================================================
-- 
2.43.0


From 80d16191b4ecd7b5878e0ce7693c6fa5ea84780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:26 +0000
Subject: [PATCH 24/46] fix: decoding_conv_viterbi selects survivors by the
 accumulated distance over existing transitions

---
 CommDspy/rx/decoding.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index cf83d0c..c7ac29a 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -312,14 +312,15 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
             # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
             step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
             step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            # transitions which are not in the trellis must never be selected
+            step_hamming    = np.where(trellis_obj.output_tensor[:, :, 0] < 0, tb_len + 1, step_hamming)
+            if chunk_idx > 0:
+                step_hamming = step_hamming + hamming_dist[:, chunk_idx-1][:, None]
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
             hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
+            hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
             decoded_mat_prev = decoded_mat.copy()
             out_state = hamming_state[in_state_int_vec, chunk_idx]
             if chunk_idx > 0:
-- 
2.43.0


From f094ef27b7f0b6074ba486e386dc38c91113d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:26 +0000
Subject: [PATCH 25/46] fix: the decoding trellis keeps the memory of inputs
 without feedback when another input has feedback

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 48128f4..a147d2b 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -142,7 +142,7 @@ def create_trellis_bin(G, states, inputs, memory_cumsum, feedback=None, use_feed
                 else:
                     for jj in range(n_out):
                         G_kk_jj = G[kk][jj]
-                        if len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0:
+                        if len(G_kk_jj) == 1 or (kk in feedback.keys() and use_feedback[kk, jj] == 0):
                             # no memory, either systematic or always 0 output, depending on G_ii_jj[0] value.
                             # 1 - systematic ; 0 - zero output
                             c_vec[jj] = c_vec[jj] ^ (in_k * G_kk_jj[0])
-- 
2.43.0


From 784934b8ba942536cc826ff73a84bda9add10761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:26 +0000
Subject: [PATCH 26/46] fix: coding_conv with feedback computes over F2 and
 stays exact for long patterns

---
 CommDspy/tx/coding.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..9f262d8 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -289,6 +289,7 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
         else:
             iir_vals = feedback[ii].astype(float)
         in_pattern = pattern_reshape.T[ii]
+        fb_pattern = in_pattern if type(iir_vals) == float else _feedback_gf2(in_pattern, feedback[ii])
         for jj in range(n_out):
             # ------------------------------------------------------------------------------------------------------
             # Getting the ijth transfer function
@@ -315,7 +316,7 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            out_ii_jj     = lfilter(G_ii_jj.astype(float), 1.0, fb_pattern)
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
@@ -325,3 +326,17 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
     # Reshaping back to the output
     # ==================================================================================================================
     return np.reshape(out_vals.T, -1)
+
+def _feedback_gf2(in_pattern, feedback_poly):
+    """
+    :param in_pattern: binary input of the feedback loop
+    :param feedback_poly: binary feedback polynomial, with 1 in the '0' location
+    :return: binary sequence at the input of the shift register, computed over F2 such that it does not lose precision
+             however long the pattern is
+    """
+    memory = np.zeros(len(feedback_poly) - 1, dtype=int)
+    out    = np.zeros(len(in_pattern), dtype=int)
+    for ii, in_bit in enumerate(in_pattern):
+        out[ii] = (in_bit + memory.dot(feedback_poly[1:])) % 2
+        memory  = np.concatenate([[out[ii]], memory])[:len(memory)]
+    return out
-- 
2.43.0


From 33d6cf65fcd8bed51b1b6b2138c37a0c02eab47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 27/46] fix: equalization_estimation with normalize works
 without DFE taps

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..07763f4 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -157,7 +157,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From 474cbd4cc208ed191decc5e056f2b1f43b1db7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 28/46] fix: equalization_estimation no longer fits rows
 reaching past the end of the signal

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 07763f4..d39f6f6 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -118,8 +118,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len       = dfe_taps + ffe_postcursor + ffe_precursor + 1
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From 70df3194e929dd0b4f6cc920511eb702f9f3e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 29/46] fix: equalization_estimation_prbs keeps the FFE cursor
 aligned when there are more DFE taps than postcursors

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index d39f6f6..933f3f7 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
+    postcursor_num  = ffe_postcursor
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
-- 
2.43.0


From 01b6497527d970100b1d47bcf29d20bdf34da165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 30/46] fix: ridge and lasso least squares solve Ax=b without a
 hidden intercept

---
 CommDspy/misc/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..8119052 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From 72dbc1fa2c520745f910c5697edc16e47c93b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:32 +0000
Subject: [PATCH 31/46] fix: example ChannelData keeps the IIR coefficients it
 is given

---
 example_simulation/simulation_parts/data_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/data_objects.py b/example_simulation/simulation_parts/data_objects.py
index ce02795..15d6f97 100644
--- a/example_simulation/simulation_parts/data_objects.py
+++ b/example_simulation/simulation_parts/data_objects.py
@@ -61,7 +61,7 @@ class ChannelData:
         self.pulse_span     = pulse_span
         self.rolloff        = rolloff
         self.ch_type        = ch_type
-        self.iir_coefs      = [1] if iir_coefs is None else fir_coefs
+        self.iir_coefs      = [1] if iir_coefs is None else iir_coefs
         self.fir_coefs      = [1] if fir_coefs is None else fir_coefs
         self.osr            = osr
         self.snr            = snr
-- 
2.43.0


From 81aef95b8cc441e5422d50ed1ad1ac2ff8af8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:32 +0000
Subject: [PATCH 32/46] fix: example Decoder undoes the gray and differential
 coding of the Encoder

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index dc12ef5..bcd87c4 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -110,9 +110,9 @@ class Decoder:
         # ==============================================================================================================
         pattern_decoded = signal_chunk.copy()
         if self.coding_gray:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
-        if self.coding_differential:
             pattern_decoded = cdsp.rx.decoding_gray(pattern_decoded, self.constellation)
+        if self.coding_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-- 
2.43.0


From 6dd69ddb9fb72000c07b81592e681f58b9a93165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:32 +0000
Subject: [PATCH 33/46] fix: example Receiver uses the existing ddlms_grad

---
 example_simulation/simulation_parts/receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index bcd87c4..76a99b2 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -236,7 +236,7 @@ class Receiver:
             # Converging the FFE and DFE
             # ------------------------------------------------------------------------------------------------------
             if self.converge_lms:
-                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.lms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
+                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
                                                                    ffe_tap_idx=self.lms_ffe_idx,
                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
-- 
2.43.0


From b1c2cf3df4a97dc580a0e1b5d3c54089beb10f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:32 +0000
Subject: [PATCH 34/46] fix: example PrbsGen tracks the previous seed

---
 example_simulation/simulation_parts/transmitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index f6a28ee..eff45dd 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -7,11 +7,13 @@ class PrbsGen:
         self.gen_poly   = prbs_data.gen_poly
         self.chunk_size = prbs_data.chunk_size
         self.seed       = prbs_data.seed if prbs_data.seed is not None else np.ones_like(self.gen_poly)
+        self.seed_prev  = self.seed
 
     def __iter__(self):
         return self
 
     def __next__(self):
+        self.seed_prev   = self.seed
         chunk, self.seed = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)
         return chunk
 
-- 
2.43.0


From 6d6bc1dbb457aa671ca0d5311723fd92ba3966e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:30 +0000
Subject: [PATCH 35/46] fix: equalization_estimation normalises by the peak FFE
 tap, also when it is negative

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 933f3f7..47081d9 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -149,7 +149,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     full_taps = ls_result[0][::-1]
     ffe       = full_taps[dfe_taps:]
-    dig_gain  = np.max(ffe)
+    dig_gain  = ffe[np.argmax(np.abs(ffe))]
     dfe       = ls_result[0][-1 * dfe_taps:][::-1] if dfe_taps > 0 else None
     ls_err    = ls_result[1]
     sig_out   = mat_ffe_dfe.dot(ls_result[0])
-- 
2.43.0


From f49d1345ce0f336c7bf1bcc421a8aa07a034a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:22 +0000
Subject: [PATCH 36/46] fix: example Decoder undoes chained binary codings in
 the reverse order of the Encoder

---
 .../simulation_parts/receiver.py              | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 76a99b2..c52064e 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -132,25 +132,25 @@ class Decoder:
             if self.pn_inv:
                 pattern_decoded = 2 - pattern_decoded
         # ==============================================================================================================
-        # Binary decoding options
+        # Binary decoding options, in the reverse order of the encoder
         # ==============================================================================================================
-        if self.coding_bin_differential:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
-        if self.coding_manchester:
-            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
-        if self.coding_bipolar:
-            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
-        if self.coding_mlt3:
-            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
-        if self.coding_diff_manchester:
-            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
-        if self.coding_linear:
-            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
         if self.coding_conv:
             pattern_decoded, _ = cdsp.rx.decoding_conv_viterbi(pattern_decoded, self.G,
                                                                tb_len=self.chunk_size,
                                                                feedback=self.feedback,
                                                                use_feedback=self.use_feedback)
+        if self.coding_linear:
+            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
+        if self.coding_diff_manchester:
+            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
+        if self.coding_mlt3:
+            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
+        if self.coding_bipolar:
+            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
+        if self.coding_manchester:
+            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
+        if self.coding_bin_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
         return pattern_decoded
 class Receiver:
     def __init__(self, ctle_data, adc_data, ffe_dfe_data, mapping_data, coding_data, lms_lr=2**(-10), digital_gain=1):
-- 
2.43.0


From 115e737d45e1142b9f26654669143755eb2a1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 37/46] fix: dig_delay_lagrange_coeffs no longer overflows for
 orders above 20

---
 CommDspy/digital_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 8ea1c1e..219a93b 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -43,7 +43,7 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the nominator component vector and the denominator component matrix
     # ==================================================================================================================
     nom_mat = np.tile(alpha - ii_vec, [len(ii_vec), 1])
-    den_mat = ii_vec - ii_vec[:, None]
+    den_mat = (ii_vec - ii_vec[:, None]).astype(float)  # the products overflow integers for orders above 20
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-- 
2.43.0


From e533b1b71661fe58a4eb22192b08db30b26ca380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:55 +0000
Subject: [PATCH 38/46] fix: line decoders accept unsigned and boolean patterns

---
 CommDspy/misc/help_functions.py | 8 ++++++++
 CommDspy/rx/decoding.py         | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index cdcc3c7..d002366 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -1,5 +1,13 @@
 import numpy as np
 
+def widen(vec):
+    """
+    :param vec: array of any numeric type
+    :return: The same values in a type which holds their sums, differences and products. Narrow, unsigned and boolean
+             arrays wrap around or are not supported in such operations
+    """
+    return np.asarray(vec).astype(np.result_type(np.asarray(vec), np.int64))
+
 def check_binary(pattern):
     data_in = np.unique(pattern)
     if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index c7ac29a..02e3828 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -1,5 +1,5 @@
 import numpy as np
-from CommDspy.misc.help_functions import check_binary, check_valid_conv
+from CommDspy.misc.help_functions import check_binary, check_valid_conv, widen
 from CommDspy.misc.ml_decoding import ml_decoding, Trellis
 from CommDspy.constants import ConstellationEnum
 from CommDspy.auxiliary import get_levels, get_gray_level_vec, get_bin_perm, hamming, bin2uint, uint2bin
@@ -70,6 +70,7 @@ def decoding_manchester(pattern):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    pattern       = widen(pattern)
     pattern_shape = pattern.shape
     new_pattern_shape = list(pattern_shape)
     new_pattern_shape[-1]= int(new_pattern_shape[-1] / 2)
@@ -95,6 +96,7 @@ def decoding_bipolar(pattern, error_detection=False):
         neighboring '0' values as well.
     :return:
     """
+    pattern = widen(pattern)
     if not error_detection:
         return np.abs(pattern - 1)
     else:
@@ -115,6 +117,7 @@ def decoding_bipolar(pattern, error_detection=False):
         return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
+    pattern      = widen(pattern)
     pattern_flat = np.reshape(pattern, -1)
     # ==================================================================================================================
     # Decoding
@@ -133,6 +136,7 @@ def decoding_differential_manchester(pattern):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    pattern               = widen(pattern)
     pattern_shape         = pattern.shape
     new_pattern_shape     = list(pattern_shape)
     new_pattern_shape[-1] = int(new_pattern_shape[-1] / 2)
-- 
2.43.0


From 907d0b3c1c328ca41514707360c1b4a5bf75d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:55 +0000
Subject: [PATCH 39/46] fix: hamming accepts unsigned and boolean bits

---
 CommDspy/auxiliary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 17b90f8..125d023 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy import linalg
 from CommDspy.constants import PrbsEnum, ConstellationEnum
+from CommDspy.misc.help_functions import widen
 
 
 def get_polynomial(prbs_type):
@@ -153,6 +154,7 @@ def hamming(pattern_block, codebook):
              num array where the (ii,jj) location hold for the hamming distance of pattern ii from codeword jj. Also
              returns the minimal hamming distance index for each block in the pattern
     """
+    codebook    = widen(codebook)
     hamming     = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2)
     decoded_idx = np.argmin(hamming, axis=0)
     return hamming, decoded_idx
-- 
2.43.0


From 7576c59daff3e12bcf79bd544d6dd91e4ff6c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:55 +0000
Subject: [PATCH 40/46] fix: power of narrow integer signals does not overflow

---
 CommDspy/auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 125d023..58fc54b 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -66,6 +66,7 @@ def power(signal):
     :param signal:
     :return: Computes the mean power of the signal
     """
+    signal = widen(signal)
     return np.mean(signal * np.conj(signal))
 
 def rms(signal):
-- 
2.43.0


From f5756e0cf198c183215a7700f32df7db9856d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:55 +0000
Subject: [PATCH 41/46] fix: pattern locking of unsigned, boolean and narrow
 integer inputs does not overflow

---
 CommDspy/rx/lock_pattern.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 683ada3..a02c28b 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy.signal import correlate
+from CommDspy.misc.help_functions import widen
 
 def lock_pattern_to_signal_binary(pattern, signal):
     """
@@ -10,6 +11,8 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    pattern     = widen(pattern)
+    signal      = widen(signal)
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
@@ -31,6 +34,8 @@ def lock_pattern_to_signal(pattern, signal):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    pattern     = widen(pattern)
+    signal      = widen(signal)
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-- 
2.43.0


From 62d2a61986815ed90c22f2da07b5d7a3516800e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:55 +0000
Subject: [PATCH 42/46] fix: slicer does not wrap around for unsigned or narrow
 samples and levels

---
 CommDspy/rx/slicer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 7269b17..fd134cc 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -1,4 +1,5 @@
 import numpy as np
+from CommDspy.misc.help_functions import widen
 
 def slicer(slicer_in_mat, levels=None):
     """
@@ -16,6 +17,7 @@ def slicer(slicer_in_mat, levels=None):
     # Creating the diff matrix --> col vec minus row vec --> matrix
     # ==================================================================================================================
     slicer_in_vec = np.reshape(slicer_in_mat, [-1, 1])
+    slicer_in_vec = widen(slicer_in_vec)
     diff_mat = abs(slicer_in_vec - levels)
     # ==================================================================================================================
     # Slicing
-- 
2.43.0


From f873e7a350270b48335d62bb0c2bec5bd7ab212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:55 +0000
Subject: [PATCH 43/46] fix: DDLMS and Mueller-Muller of narrow integer signals
 do not overflow

---
 CommDspy/rx/clock_data_recovery.py | 2 ++
 CommDspy/rx/least_mean_squares.py  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/clock_data_recovery.py b/CommDspy/rx/clock_data_recovery.py
index dbfb80f..9d346f7 100644
--- a/CommDspy/rx/clock_data_recovery.py
+++ b/CommDspy/rx/clock_data_recovery.py
@@ -1,4 +1,5 @@
 import numpy as np
+from CommDspy.misc.help_functions import widen
 
 
 def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weight=1, tol=1e-3):
@@ -18,6 +19,7 @@ def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weigh
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    reference_signal = widen(reference_signal)
     reference_pre  = reference_signal[1:]
     reference_post = reference_signal[:-1]
     # ==================================================================================================================
diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index a980318..5a4d799 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -1,5 +1,6 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
+from CommDspy.misc.help_functions import widen
 
 def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_idx=np.array([]), reference_vec=None):
     """
@@ -57,7 +58,7 @@ def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_
     # ==================================================================================================================
     # Computing the MSE
     # ==================================================================================================================
-    e_n = output_vec - reference_vec
+    e_n = widen(output_vec) - reference_vec
     mse = np.mean(e_n**2)
     # ==================================================================================================================
     # Computing the FFE + DFE derivatives
-- 
2.43.0


From edd32032f297bc871779c47b96bc7f31f8284f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:45 +0000
Subject: [PATCH 44/46] fix: example receiver never finished its convergence

The LMS stop condition compared the MSE with itself (the last value was
overwritten first) and stopped on a large change instead of a small one,
so perform_convergence looped for ever.
---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index c52064e..b2bebf5 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -241,12 +241,12 @@ class Receiver:
                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
                 self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec
-                self.lms_mse_last = mse
                 # **********************************************************************************************
                 # Stop condition
                 # **********************************************************************************************
-                if abs(mse - self.lms_mse_last) > 10 ** (self.lms_mse_diff_th / 20):
+                if abs(mse - self.lms_mse_last) < 10 ** (self.lms_mse_diff_th / 20):
                     self.converge_lms = False
+                self.lms_mse_last = mse
             if not self.converge_cdr and not self.converge_lms:
                 self.converge      = False
                 self.converge_done = True
-- 
2.43.0


From a56094f353c068bd0b794c81bc38eebc359f3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:45 +0000
Subject: [PATCH 45/46] fix: awgn returned NaN for a single sample and too much
 noise for short signals

The unbiased variance (ddof=1) plus the squared mean is not the mean power:
it is n/(n-1) too large for n samples and undefined for one.
---
 CommDspy/channel/additive_noise_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel/additive_noise_functions.py b/CommDspy/channel/additive_noise_functions.py
index 2ce9319..8081d5d 100644
--- a/CommDspy/channel/additive_noise_functions.py
+++ b/CommDspy/channel/additive_noise_functions.py
@@ -19,7 +19,7 @@ def awgn(signal, snr):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    sig_power_hat = np.var(signal, ddof=1) + np.mean(signal) ** 2
+    sig_power_hat = np.var(signal) + np.mean(signal) ** 2
     # ==================================================================================================================
     # Computing AWGN std to match the SNR
     # ==================================================================================================================
-- 
2.43.0


From f1023dae51b1b02eef887ed7a3d3889ed10925ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:48 +0000
Subject: [PATCH 46/46] fix: example link did not converge again after its
 first convergence

---
 example_simulation/simulation_parts/full_link.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/example_simulation/simulation_parts/full_link.py b/example_simulation/simulation_parts/full_link.py
index a1f8bc2..f1ed1ce 100644
--- a/example_simulation/simulation_parts/full_link.py
+++ b/example_simulation/simulation_parts/full_link.py
@@ -23,6 +23,7 @@ class FullLink:
         self.Rx.converge     = True
         self.Rx.converge_lms = True
         self.Rx.converge_cdr = True
+        self.Rx.converge_done = False
         self.Rx.lms_mse_vec  = []
         self.Rx.cdr_step_vec = []
 
-- 
2.43.0

