From ef0abb9087c6aa2d550f6b0e1d88fcdbc12af32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:06 +0000
Subject: [PATCH 001/123] fix: bit_truncate_weights zeroed negative values with
 zero weight

The relative fallback precision was passed with the sign of the value, and a
negative error is treated as an overflow, so the value was rounded to zero.
---
 caput/util/truncate.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 970dca8..57180f2 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -104,7 +104,7 @@ def _bit_truncate_weights_float(float[:] val, float[:] inv_var, float fallback):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_float(val[i], fallback * val[i])
+            val[i] = _bit_truncate_float(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
@@ -126,7 +126,7 @@ def _bit_truncate_weights_double(double[:] val, double[:] inv_var, double fallba
         if inv_var[i] != 0:
             val[i] = _bit_truncate_double(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_double(val[i], fallback * val[i])
+            val[i] = _bit_truncate_double(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
-- 
2.43.0


From f4a86a5cbe0398e3fae123c1b0b5762ccea5e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:06 +0000
Subject: [PATCH 002/123] fix: float truncation flushed some tiny values to
 zero

The power of two used to scale the error overflowed its exponent for values in
[2**-105, 2**-104) (2**-972 for doubles), which were rounded to zero whatever
the requested error was.
---
 caput/util/truncate.hpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index b728e0d..6809ed2 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -46,7 +46,7 @@ const int64_t ERR_MAX_DOUBLE = 4611686018427387903L;
  *
  *  @warning Undefined results for err < 0 and err > 2**30.
  */
-inline int32_t bit_truncate(int32_t val, int32_t err) {
+static inline int32_t bit_truncate(int32_t val, int32_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int32_t gran = err;
@@ -83,7 +83,7 @@ inline int32_t bit_truncate(int32_t val, int32_t err) {
  *
  *  @warning Undefined results for err < 0 and err > 2**62.
  */
-inline int64_t bit_truncate_64(int64_t val, int64_t err) {
+static inline int64_t bit_truncate_64(int64_t val, int64_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int64_t gran = err;
@@ -119,7 +119,7 @@ inline int64_t bit_truncate_64(int64_t val, int64_t err) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int32_t count_zeros(int32_t x) {
+static inline int32_t count_zeros(int32_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -133,7 +133,7 @@ inline int32_t count_zeros(int32_t x) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int64_t count_zeros_64(int64_t x) {
+static inline int64_t count_zeros_64(int64_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -153,7 +153,7 @@ inline int64_t count_zeros_64(int64_t x) {
  *
  * @returns The result of 2^e
  */
-inline float fast_pow(int8_t e) {
+static inline float fast_pow(int8_t e) {
     float* out_f;
     // Construct float bitwise
     uint32_t out_i = ((uint32_t)(127 + e) << 23);
@@ -172,7 +172,7 @@ inline float fast_pow(int8_t e) {
  *
  * @returns The result of 2^e
  */
-inline double fast_pow_double(int16_t e) {
+static inline double fast_pow_double(int16_t e) {
     double* out_f;
     // Construct float bitwise
     uint64_t out_i = ((uint64_t)(1023 + e) << 52);
@@ -191,7 +191,7 @@ inline double fast_pow_double(int16_t e) {
  *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
  *
  */
-inline float _bit_truncate_float(float val, float err) {
+static inline float _bit_truncate_float(float val, float err) {
     // cast float memory into an int
     int32_t* cast_val_ptr = (int32_t*)&val;
     // extract the exponent and sign
@@ -202,8 +202,11 @@ inline float _bit_truncate_float(float val, float err) {
     // extract mantissa. mask is 2**23 - 1. Add back the implicit 24th bit
     int32_t val_man = (cast_val_ptr[0] & MASK_MANTISSA_FLOAT) + IMPLICIT_BIT_FLOAT;
     // scale the error to the integer representation of the mantissa
-    // scale by 2**(23 + 127 - pow)
-    int32_t int_err = (int32_t)(err * fast_pow(150 - val_pow));
+    // scale by 2**(23 + 127 - pow). Cap the scaling at the largest representable power
+    // of two, this only makes the truncation finer for extremely small values.
+    int32_t scale_pow = 150 - val_pow;
+    scale_pow = (scale_pow > 127) ? 127 : scale_pow;
+    int32_t int_err = (int32_t)(err * fast_pow(scale_pow));
     // make sure hasn't overflowed. if set to 2**30-1, will surely round to 0.
     // must keep err < 2**30 for bit_truncate to work
     int_err = (int_err & HIGH_BITS) ? ERR_MAX_FLOAT : int_err;
@@ -237,7 +240,7 @@ inline float _bit_truncate_float(float val, float err) {
  *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
  *
  */
-inline double _bit_truncate_double(double val, double err) {
+static inline double _bit_truncate_double(double val, double err) {
     // Step 1: Extract the sign, exponent and mantissa:
     // ------------------------------------------------
     // cast float memory into an int
@@ -252,8 +255,11 @@ inline double _bit_truncate_double(double val, double err) {
 
     // Step 2: Scale the error to the integer representation of the mantissa:
     // ----------------------------------------------------------------------
-    // scale by 2**(52 + 1023 - pow)
-    int64_t int_err = (int64_t)(err * fast_pow_double(1075 - val_pow));
+    // scale by 2**(52 + 1023 - pow). Cap the scaling at the largest representable power
+    // of two, this only makes the truncation finer for extremely small values.
+    int64_t scale_pow = 1075 - val_pow;
+    scale_pow = (scale_pow > 1023) ? 1023 : scale_pow;
+    int64_t int_err = (int64_t)(err * fast_pow_double(scale_pow));
     // make sure hasn't overflowed. if set to 2**62-1, will surely round to 0.
     // must keep err < 2**62 for bit_truncate_double to work
     int_err = (int_err & HIGH_BITS_DOUBLE) ? ERR_MAX_DOUBLE : int_err;
-- 
2.43.0


From 2eeb4b1a4fff87ec1ab47d1f37b6750f34aedcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 003/123] fix: undefined negative shift when truncation rounds
 up to a power of two

---
 caput/util/truncate.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index 6809ed2..101b8ab 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -219,7 +219,8 @@ static inline float _bit_truncate_float(float val, float err) {
     // adjust power after truncation to account for loss of implicit bit
     val_pow -= z_count - 8;
     // shift mantissa by same amount, remove implicit bit
-    tr_man = (tr_man << (z_count - 8)) & MASK_MANTISSA_FLOAT;
+    // (nothing to shift if it rounded up to the next power of two)
+    tr_man = ((z_count > 8) ? (tr_man << (z_count - 8)) : tr_man) & MASK_MANTISSA_FLOAT;
     // round to zero case
     val_pow = ((z_count != 32) ? val_pow : 0);
     // restore sign and exponent
@@ -275,7 +276,8 @@ static inline double _bit_truncate_double(double val, double err) {
     // adjust power after truncation to account for loss of implicit bit
     val_pow -= z_count - 11;
     // shift mantissa by same amount, remove implicit bit
-    tr_man = (tr_man << (z_count - 11)) & MASK_MANTISSA_DOUBLE;
+    // (nothing to shift if it rounded up to the next power of two)
+    tr_man = ((z_count > 11) ? (tr_man << (z_count - 11)) : tr_man) & MASK_MANTISSA_DOUBLE;
     // round to zero case
     val_pow = ((z_count != 64) ? val_pow : 0);
     // restore sign and exponent
-- 
2.43.0


From e93750d90253f0ea6cf14af78891684d1a96eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 004/123] fix: weighted quantile read past the end of the array

When all of the weight is in the left partition (e.g. for q=1) there is no
element on the right of the boundary to compare to.
---
 caput/algorithms/median/weighted.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5ffdfbd..9fdb91a 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -100,6 +100,11 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
         if qs == weights_left:
 
             i = _max_non_zero(A, W, 0, jj)
+
+            # If all the elements are in the left partition there is no upper bound
+            if jj == len(A) - 1:
+                return A[i]
+
             j = _min_non_zero(A, W, jj + 1, len(A) - 1)
 
             if (W[j] == 0 and W[i] > 0) or method == "l":
-- 
2.43.0


From 2c9aa25f7e55115cb3059c3063fca6eb411c63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 005/123] fix: moving weighted median 'lower' and 'higher'
 picked the wrong tie element

The search walked down the children of the tied node, rather than to its
neighbour in sorted order, so e.g. 'higher' could return the window maximum.
---
 caput/algorithms/median/MedianTree.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.hpp b/caput/algorithms/median/MedianTree.hpp
index e2d4bd1..eb504aa 100644
--- a/caput/algorithms/median/MedianTree.hpp
+++ b/caput/algorithms/median/MedianTree.hpp
@@ -594,9 +594,13 @@ template<typename T>
 T Tree<T>::weighted_median_higher(node_ptr<T> node, double previous_weights,
                                   double next_weights, double midpoint) {
     // Take the highest value that qualifies.
-    while (node->right_weight + next_weights <= midpoint
-           && node->left_weight + previous_weights + node->data->weight <= midpoint && node->right)
-        node = node->right;
+    while (node->left_weight + previous_weights + node->data->weight <= midpoint) {
+        node_ptr<T> next = in_order_successor(node);
+        if (!next)
+            break;
+        previous_weights += node->data->weight + node->left_weight;
+        node = next;
+    }
     return (double)node->data->value;
 }
 
@@ -604,9 +608,13 @@ template<typename T>
 T Tree<T>::weighted_median_lower(node_ptr<T> node, double previous_weights,
                                  double next_weights, double midpoint) {
     // Take the lowest value that qualifies.
-    while (node->left_weight + previous_weights <= midpoint
-           && node->right_weight + next_weights + node->data->weight <= midpoint && node->left)
-        node = node->left;
+    while (node->right_weight + next_weights + node->data->weight <= midpoint) {
+        node_ptr<T> next = in_order_predecessor(node);
+        if (!next)
+            break;
+        next_weights += node->data->weight + node->right_weight;
+        node = next;
+    }
     return (double)node->data->value;
 }
 
-- 
2.43.0


From 29d63bee6201f1b94ac1a62a540d2dade8440fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 006/123] fix: FFTW objects could overwrite the input of an
 earlier transform

pyfftw keeps the last input it was applied to as its internal buffer, and copies
any later input which is not aligned or contiguous into it.
---
 caput/algorithms/fft/fftw.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/caput/algorithms/fft/fftw.py b/caput/algorithms/fft/fftw.py
index 599f00b..a006ca8 100644
--- a/caput/algorithms/fft/fftw.py
+++ b/caput/algorithms/fft/fftw.py
@@ -127,6 +127,29 @@ class FFTW:
         """
         return self._params
 
+    def _execute(self, plan, x):
+        # Apply a plan to an array, without modifying the array or any other
+        # array which the plan has been applied to before.
+        if x.dtype != plan.input_dtype:
+            raise ValueError(
+                f"Invalid input dtype {x.dtype} (expected {plan.input_dtype})."
+            )
+
+        if x.strides != plan.input_strides or not pyfftw.is_byte_aligned(
+            x, n=plan.input_alignment
+        ):
+            # The plan can't be applied to this array directly. If given one, pyfftw
+            # makes a copy in whichever array it was last applied to, so we need to
+            # provide a new array instead.
+            x_in = pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd)
+            x_in[...] = x
+            x = x_in
+
+        return plan(
+            input_array=x,
+            output_array=pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd),
+        )
+
     def fft(self, x):
         """Perform a forward FFT.
 
@@ -146,10 +169,7 @@ class FFTW:
             If the forward FFT is not initialized.
         """
         try:
-            return self._fft(
-                input_array=x,
-                output_array=pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd),
-            )
+            return self._execute(self._fft, x)
         except AttributeError:
             raise RuntimeError("Forward fft not initialised.")
 
@@ -175,10 +195,7 @@ class FFTW:
             If the backward FFT is not initialized.
         """
         try:
-            return self._ifft(
-                input_array=x,
-                output_array=pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd),
-            )
+            return self._execute(self._ifft, x)
         except AttributeError:
             raise RuntimeError("Backward fft not initialised.")
 
-- 
2.43.0


From ce6ebde2d5e30073298da5815517a4f244322ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 007/123] fix: MultithreadedRNG silently left some output
 arrays unfilled

A large non-contiguous `out` was never written to (the serial methods raise an
exception), and an `out` given as a positional argument was ignored.
---
 caput/algorithms/random.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index d73c831..74b8156 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -156,12 +156,21 @@ class MultithreadedRNG(np.random.Generator):
                 size = None
 
             # Try and get an out argument
-            if has_out and "out" in kwargs:
-                out = kwargs.pop("out")
-                size = out.shape
+            if has_out and len(args) > nparam + 2:
+                out = args[nparam + 2]
+            elif has_out:
+                out = kwargs.pop("out", None)
             else:
                 out = None
 
+            if out is not None:
+                # We can only fill contiguous arrays in place. Other arrays are not
+                # supported by the underlying method, so let it deal with the error.
+                if not out.flags.c_contiguous:
+                    return method(self, *orig_args, **orig_kwargs)
+
+                size = out.shape
+
             # Try to figure out the dtype so we can pre-allocate the array for filling
             if has_dtype and len(args) > nparam + 1:
                 dtype = args[nparam + 1]
-- 
2.43.0


From f60672fb7298d42577e14d61b924c261dbff5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:16 +0000
Subject: [PATCH 008/123] fix: invert_no_zero did not set all of the output
 arrays it accepts

The result was lost if the output array was not contiguous, scrambled if its
memory order differed from the input, and not set for integer inputs.
---
 caput/algorithms/_invert_no_zero/__init__.py | 38 ++++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 19ccbd5..3d87d89 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -29,24 +29,40 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
         if this cannot be preserved the output is C-contiguous. If `out` was not `None`,
         this is `out`.
     """
+    if out is not None and np.shape(x) != out.shape:
+        raise ValueError(
+            "Input and output arrays don't have same shape: "
+            f"{np.shape(x)} != {out.shape}."
+        )
+
     if not isinstance(x, np.generic | np.ndarray) or np.issubdtype(x.dtype, np.integer):
         with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
-            return np.where(x == 0, 0.0, 1.0 / x)
-
-    if out is not None:
-        if x.shape != out.shape:
-            raise ValueError(
-                f"Input and output arrays don't have same shape: {x.shape} != {out.shape}."
-            )
-    else:
+            inv = np.where(x == 0, 0.0, 1.0 / x)
+
+        if out is None:
+            return inv
+
+        out[...] = inv
+        return out
+
+    if out is None:
         # This works even for MPIArrays, producing a correctly shaped MPIArray
         out = np.empty_like(x, order="A")
 
     # In order to be able to flatten the arrays to do element by element operations, we
     # need to ensure the inputs are numpy arrays, and so we take a view which will work
     # even if `x` (and thus `out`) are MPIArray's
-    _invert_no_zero(
-        x.view(np.ndarray).ravel(order="A"), out.view(np.ndarray).ravel(order="A")
-    )
+    x_arr = x.view(np.ndarray)
+    out_arr = out.view(np.ndarray)
+
+    # Both arrays must be flattened in the same order
+    order = "F" if x_arr.flags.f_contiguous and out_arr.flags.f_contiguous else "C"
+    out_flat = out_arr.ravel(order=order)
+
+    _invert_no_zero(x_arr.ravel(order=order), out_flat)
+
+    # If it could not be flattened without a copy we still need to set the output
+    if not np.may_share_memory(out_flat, out_arr):
+        out_arr[...] = out_flat.reshape(out_arr.shape, order=order)
 
     return out
-- 
2.43.0


From 73c359bc258431310868e915451c52fe7f0c134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:17 +0000
Subject: [PATCH 009/123] fix: string dtype conversion dropped the shape of
 subarray fields

---
 caput/util/typeutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 4244302..90e0984 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -142,7 +142,8 @@ def _convert_dtype(
             # Recursively convert the type
             newtype = _iter_conv(type_) if isinstance(type_, list) else _conv(type_)
 
-            items.append((name, newtype))
+            # Any extra item is the shape of a subarray field
+            items.append((name, newtype, *item[2:]))
 
         return items
 
-- 
2.43.0


From 00f2a1ab4f00e24ee811a4c2097188e99154a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:39 +0000
Subject: [PATCH 010/123] fix: gather_local raised IndexError on a single
 process

Indexing with a list of slices is not allowed by numpy, so gathering on a
single process never worked.
---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fc4521c..ced645a 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -609,7 +609,7 @@ def gather_local(
     if comm is None or comm.size == 1:
         # only one process
         slc = [slice(s, s + n) for (s, n) in zip(local_start, local_size)]
-        global_array[slc] = local_array.copy()
+        global_array[tuple(slc)] = local_array.copy()
     else:
         local_sizes = comm.gather(local_size, root=root)
         local_starts = comm.gather(local_start, root=root)
-- 
2.43.0


From c844b384b7abc9c2f971c42ad1df4e85f2d93bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:39 +0000
Subject: [PATCH 011/123] fix: parallel row writes overwrote the start of the
 file

lock_and_write_buffer never moved to the requested offset, and
parallel_rows_write_hdf5 gave it offsets and sizes in elements rather than
bytes, so every rank wrote over the file header.
---
 caput/util/mpitools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index ced645a..715ba40 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -926,16 +926,16 @@ def lock_and_write_buffer(obj: object, fname: str, offset: int, size: int) -> No
 
     buf = memoryview(obj)
 
-    if len(buf) > size:
+    if buf.nbytes > size:
         raise Exception("Size doesn't match array length.")
 
     fd = os.open(fname, os.O_RDWR | os.O_CREAT)
 
     fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
 
-    nb = os.write(fd, buf)
+    nb = os.pwrite(fd, buf, offset)
 
-    if nb != len(buf):
+    if nb != buf.nbytes:
         raise Exception("Something funny happened with the reading.")
 
     fcntl.lockf(fd, fcntl.LOCK_UN)
@@ -959,4 +959,8 @@ def parallel_rows_write_hdf5(
 
     nc = np.prod(shape[1:])
 
-    lock_and_write_buffer(local_data, fname, offset + sr * nc, lr * nc)
+    row_nbytes = nc * local_data.dtype.itemsize
+
+    lock_and_write_buffer(
+        local_data, fname, offset + sr * row_nbytes, lr * row_nbytes
+    )
-- 
2.43.0


From 23c603256dc28bb2c51c8897613b292ea1d4cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:00 +0000
Subject: [PATCH 012/123] fix: MPIArray.gather scrambled arrays which are not C
 contiguous

Transposed arrays were gathered in the wrong element order, and strided views
raised an exception on the ranks which hold data.
---
 caput/mpiarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69bba87..030fa2b 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1552,7 +1552,9 @@ class MPIArray(np.ndarray):
 
             # Send the data
             if self.comm.rank == ri:
-                request = self.comm.Isend(self._prep_buf(self.local_array), dest=rank)
+                # The buffer must be in C order to match the receiving side
+                sbuf = np.ascontiguousarray(self.local_array)
+                request = self.comm.Isend(self._prep_buf(sbuf), dest=rank)
 
                 # Wait until the data has been sent
                 stat = mpitools.MPI.Status()
-- 
2.43.0


From 612d08d515fc8128b89c3f9511931412ce7145c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:00 +0000
Subject: [PATCH 013/123] fix: accumulating over a negative distributed axis
 was not rejected

np.add.accumulate(arr, axis=-1) along the distributed axis gave rank-local sums.
---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 030fa2b..3bdcfda 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2001,7 +2001,7 @@ class MPIArray(np.ndarray):
     ) -> tuple[int, 3]:
         """Validate and infer the final distributed axis for a ufunc accumulation."""
         # An accumulation should give an array the same shape as the input.
-        if axis == input_.axis:
+        if axis in (input_.axis, input_.axis - input_.ndim):
             raise AxisException(
                 f"Can not accumulate over the distributed axis (axis={input_.axis})"
             )
-- 
2.43.0


From 11f12c0987f3e79c092b2b49d87e7be20fed830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:00 +0000
Subject: [PATCH 014/123] fix: empty selections could get a negative length
 when reading an MPIArray

---
 caput/mpiarray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 3bdcfda..719002d 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2192,8 +2192,7 @@ def _partition_sel(
 def _len_slice(slice_: slice, n: int) -> int:
     """Calculate the output length of a slice applied to an axis of length n."""
     if isinstance(slice_, slice):
-        start, stop, step = slice_.indices(n)
-        return 1 + (stop - start - 1) // step
+        return len(range(*slice_.indices(n)))
 
     return len(slice_)
 
-- 
2.43.0


From 84543594da64e6433eefb87a0640f199426f5a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:00 +0000
Subject: [PATCH 015/123] fix: global_slice ignored negative and numpy integer
 indices

A negative index on the distributed axis was not found on any rank, and a numpy
integer was applied to the local part of the array on every rank.
---
 caput/mpiarray.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 719002d..e248096 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -305,7 +305,7 @@ class _global_resolver:
         local_length = self.array.shape[self.axis]
 
         # Expand a single integer or slice index
-        if isinstance(slobj, int | slice):
+        if isinstance(slobj, int | np.integer | slice):
             slobj: SelectionTupleLike = (slobj, Ellipsis)
 
         # Add an ellipsis if length of slice object is too short
@@ -331,8 +331,10 @@ class _global_resolver:
 
         # Process the parallel axis. Calculate the correct index for the
         # containing rank, and set None on all others.
-        if isinstance(slice_list[self.axis], int):
-            index = slice_list[self.axis] - self.offset
+        if isinstance(slice_list[self.axis], int | np.integer):
+            index = int(slice_list[self.axis])
+            index = index if index >= 0 else index + self.length
+            index = index - self.offset
             slice_list[self.axis] = (
                 None if (index < 0 or index >= local_length) else index
             )
-- 
2.43.0


From 3c485836bf3f65d872749ff6efae42458e622b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:00 +0000
Subject: [PATCH 016/123] fix: strided global_slice did not select the same
 elements as numpy

The stride restarted at the first element of every rank, and negative strides
silently selected nothing.
---
 caput/mpiarray.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index e248096..8984cdc 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -352,7 +352,7 @@ class _global_resolver:
             # Check if start is defined, and modify slice
             if start is not None:
                 start = (
-                    start if start >= 0 else start + self.length
+                    start if start >= 0 else max(start + self.length, 0)
                 )  # Resolve negative indices
                 fullslice = False
                 start = start - self.offset
@@ -369,10 +369,18 @@ class _global_resolver:
             else:
                 stop = local_length
 
-            # If step is defined we don't need to adjust this, but it's no longer a
-            # complete slice
+            # If step is defined it's no longer a complete slice, and the first element
+            # on this rank must be a whole number of steps from the global start
             if step is not None:
+                if step < 0:
+                    raise IndexError(
+                        "Negative steps are not supported along the distributed axis."
+                    )
                 fullslice = False
+                if s.start is None:
+                    start = -self.offset
+                if start < 0:
+                    start = start % step
 
             # If there is no data on this node place None on the parallel axis
             if start >= local_length or stop < 0:
-- 
2.43.0


From bf45b07be1075e01455ab7973bc5e51b68336a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:24 +0000
Subject: [PATCH 017/123] fix: negative distributed axes were not normalised

Redistributing onto the current axis given as a negative number failed, and
arrays created or wrapped with one reported it as their axis, which does not match
any later comparison with the position of an axis.
---
 caput/mpiarray.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 8984cdc..33f40b8 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -616,6 +616,10 @@ class MPIArray(np.ndarray):
         if comm is None:
             comm = mpitools.world
 
+        # Negative axes count from the end
+        if axis < 0:
+            axis = range(len(global_shape))[axis]
+
         # Determine local section of distributed axis
         local_num, local_start, _ = mpitools.split_local(global_shape[axis], comm=comm)
 
@@ -734,6 +738,10 @@ class MPIArray(np.ndarray):
                 f"Distributed axis {axis} does not exist in global shape {array.shape}"
             ) from e
 
+        # Negative axes count from the end
+        if axis < 0:
+            axis += array.ndim
+
         totallen = mpitools.allreduce(axlen, comm=comm)
 
         # Figure out what the distributed layout should be
@@ -774,6 +782,10 @@ class MPIArray(np.ndarray):
         MemoryError
             If there is not enough memory to perform the redistribution.
         """
+        # Negative axes count from the end
+        if axis < 0:
+            axis = range(self.ndim)[axis]
+
         # Check to see if this is the current distributed axis
         if self.axis == axis or self.comm is None:
             return self
-- 
2.43.0


From a8614665715a2cadabbb82f988c6fdb09b5ea767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:24 +0000
Subject: [PATCH 018/123] fix: transposed MPIArrays could describe the wrong
 distributed axis

The T attribute and swapaxes kept the distributed axis number and global shape of
the original array, and transpose failed for None and for negative axes.
---
 caput/mpiarray.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 33f40b8..63cff54 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1404,18 +1404,32 @@ class MPIArray(np.ndarray):
 
         if len(axes) == 1 and isinstance(axes[0], tuple | list):
             axes: list | tuple = axes[0]
-        elif axes is None or axes == ():
+        elif axes == (None,) or axes == ():
             axes: list = list(range(self.ndim - 1, -1, -1))
 
+        axes: list = [ax % self.ndim for ax in axes]
+
         tdata._global_shape = tuple(self.global_shape[ax] for ax in axes)
         tdata._local_shape = tuple(self.local_shape[ax] for ax in axes)
         tdata._local_offset = tuple(self.local_offset[ax] for ax in axes)
 
-        tdata._axis = list(axes).index(self.axis)
+        tdata._axis = axes.index(self.axis)
         tdata._comm = self._comm
 
         return tdata
 
+    @property
+    def T(self) -> MPIArray:
+        """View of the array with the order of the axes reversed."""
+        return self.transpose()
+
+    def swapaxes(self, axis1: int, axis2: int) -> MPIArray:
+        """Return a view of the array with two axes interchanged."""
+        axes = list(range(self.ndim))
+        axes[axis1], axes[axis2] = axes[axis2], axes[axis1]
+
+        return self.transpose(axes)
+
     def reshape(self, *shape: Sequence[int | None], order: str = "C") -> MPIArray:  # noqa: D417
         r"""Reshape the array.
 
-- 
2.43.0


From 43afcff058386f0e9ed2015da220692208cafe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:10 +0000
Subject: [PATCH 019/123] fix: reshaping an MPIArray diverged on ranks without
 data

A wildcard raised ZeroDivisionError, and an invalid shape was accepted, on ranks
where the distributed axis has length zero.
---
 caput/mpiarray.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 63cff54..69e7278 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1502,18 +1502,23 @@ class MPIArray(np.ndarray):
         # We will check the reshaping in two steps so we can be sure that we are not
         # messing up the axis distribution. In both cases we will *include* the
         # distributed axis in the test as this takes care of cases where we are adding
-        # length-1 axes where there are currently no axes.
+        # length-1 axes where there are currently no axes. It counts as having length 1
+        # so that the outcome is the same on ranks which don't hold any data.
         # First, we test any axes after the distributed axis...
-        post_shape = self.local_shape[self.axis :]
-        new_post_shape: list = local_shape[new_axis:]
+        post_shape = (1, *self.local_shape[self.axis + 1 :])
+        new_post_shape: list = [1, *local_shape[new_axis + 1 :]]
         new_post_shape: tuple = _check_shapes(post_shape, new_post_shape)
         # Then, we test any axes before the distributed axis...
-        pre_shape = self.local_shape[: (self.axis + 1)]
-        new_pre_shape: list = local_shape[: (new_axis + 1)]
+        pre_shape = (*self.local_shape[: self.axis], 1)
+        new_pre_shape: list = [*local_shape[:new_axis], 1]
         new_pre_shape: tuple = _check_shapes(pre_shape, new_pre_shape)
 
         # Construct the new fleshed out local array shape
-        local_shape = new_pre_shape[:new_axis] + new_post_shape
+        local_shape = (
+            *new_pre_shape[:new_axis],
+            self.local_shape[self.axis],
+            *new_post_shape[1:],
+        )
 
         # Now we actually try the resize...
         new_data = self.local_array.reshape(local_shape, order=order)
-- 
2.43.0


From e17ec4d5fe917bf689aa1824887d261d0ed8fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:09 +0000
Subject: [PATCH 020/123] fix: zarr writes left stray lock directories in the
 working directory

The dot was put in front of the whole path, so that the lock of
/a/b.zarr was created in ./a below the working directory and its parents were
never removed.
---
 caput/memdata/_memh5.py | 2 +-
 caput/mpiarray.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a782107..f299051 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2819,7 +2819,7 @@ def _distributed_group_to_file(
     if file_format == fileformats.Zarr:
         with (
             fileformats.ZarrProcessSynchronizer(
-                f".{fname}.sync", group.comm
+                f"{fname}.sync", group.comm
             ) as synchronizer,
             zarr.open_group(store=fname, mode="r+", synchronizer=synchronizer) as f,
         ):
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69e7278..f65a5c8 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1279,7 +1279,7 @@ class MPIArray(np.ndarray):
         if isinstance(f, str):
             if self.comm.rank == 0 and create:
                 zarr.open(store=f, mode=mode)
-            lockfile = f".{f}.sync"
+            lockfile = f"{f}.sync"
             self.comm.Barrier()
             group = zarr.open_group(
                 store=f,
-- 
2.43.0


From 6c9afdad89382b1db5dbce46050a14b8cd5695f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:02 +0000
Subject: [PATCH 021/123] fix: path lookups did not stop at datasets

A path which continues past a dataset indexed into the data, so membership
tests and group creation raised IndexError, and fields of a structured dataset
looked like entries of the tree.
---
 caput/memdata/_memh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index f299051..589acd8 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -167,6 +167,9 @@ class _StorageRoot(_Storage):
         # Crawl the path.
         out = self
         for part in path_parts:
+            if not isinstance(out, _Storage):
+                # Datasets do not contain any entries
+                raise KeyError(key)
             out = out[part]
         return out
 
-- 
2.43.0


From cb9ad6d3db494f70af8ce0b1af93f770e5581dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:18 +0000
Subject: [PATCH 022/123] fix: selections were ignored when copying a group
 into a file

deep_group_copy went back to the full dataset after applying the selection,
and could not copy from a dataset which is itself on disk.
---
 caput/memdata/_memh5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 589acd8..937f447 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2574,10 +2574,12 @@ def deep_group_copy(
             else:
                 data = typeutils.ensure_unicode(data)
 
-        elif to_file:
+        elif to_file and typeutils.has_unicode(dset.dtype):
             # If we shouldn't convert we at least need to ensure there aren't any
             # Unicode characters before writing
-            data = typeutils.check_unicode(entry)
+            raise TypeError(
+                f'Can not write dataset "{dset.name!s}" of unicode type into HDF5.'
+            )
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From c0592809e6587c2216a061105cb1875401dd424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:18 +0000
Subject: [PATCH 023/123] fix: numpy scalars inside dictionary attributes could
 not be saved

---
 caput/memdata/_memh5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 937f447..20b1b21 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2395,10 +2395,10 @@ def copyattrs(a1, a2, convert_strings=False):
             def default(self, o):
                 if isinstance(o, datetime.datetime):
                     return o.isoformat()
-                if isinstance(o, np.number):
-                    return o.data
+                if isinstance(o, np.number | np.bool_):
+                    return o.item()
                 if isinstance(o, np.ndarray):
-                    if len(o) == 1:
+                    if o.ndim > 0 and len(o) == 1:
                         return o.tolist()[0]
                     return o.tolist()
                 if isinstance(o, bytes):  # pragma: py3
-- 
2.43.0


From fc3d2b61bb318822cc48584d4790041fadc04243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:18 +0000
Subject: [PATCH 024/123] fix: converting a dataset to distributed split the
 wrong axis

dataset_common_to_distributed always sliced the first axis of the common data,
whatever axis the new dataset is distributed over.
---
 caput/memdata/_memh5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 20b1b21..6887be9 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -940,12 +940,12 @@ class MemGroup(_BaseGroup):
         dset_chunks = dset.chunks
         dset_compression = dset.compression
         dset_compression_opts = dset.compression_opts
-        dist_len = dset_shape[distributed_axis]
-        _, sd, ed = mpitools.split_local(dist_len, comm=self.comm)
         md = mpiarray.MPIArray(
             dset_shape, axis=distributed_axis, comm=self.comm, dtype=dset_type
         )
-        md.local_array[:] = dset[sd:ed].copy()
+        local_sel = [slice(None)] * len(dset_shape)
+        local_sel[distributed_axis] = md.local_bounds
+        md.local_array[:] = dset[tuple(local_sel)]
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From 5e09ae4a8ea8a247af7411597ec70293b475699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:01 +0000
Subject: [PATCH 025/123] fix: copying a subgroup kept the absolute paths of
 its source

deep_group_copy placed entries at their absolute path in the source tree, so
copying from a subgroup failed and copying into a subgroup wrote to the root.
---
 caput/memdata/_memh5.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 6887be9..5cb364d 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2645,12 +2645,14 @@ def deep_group_copy(
 
     while stack:
         entry = stack.pop()
-        key = entry.name
+        # Locate the entry relative to the starting level
+        key = format_abs_path("/" + entry.name[len(g1.name) :])
+        target_name = posixpath.join(g2.name, key[1:])
 
         if is_group(entry):
-            if key != g1.name:
+            if entry.name != g1.name:
                 # Only create group if we are above the starting level
-                g2.create_group(key)
+                g2.create_group(target_name)
 
             stack += [entry[k] for k in sorted(entry, reverse=True)]
 
@@ -2661,10 +2663,10 @@ def deep_group_copy(
                     f"Cannot apply a selection to a shared dataset ({entry.name})"
                 )
             # Just point to the existing dataset
-            parent_name, name = posixpath.split(posixpath.join(g2.name, key))
+            parent_name, name = posixpath.split(target_name)
             parent_name = format_abs_path(parent_name)
             # Get the proper storage location for this dataset
-            g2[parent_name]._get_storage()[name] = g1._get_storage()[key]
+            g2[parent_name]._get_storage()[name] = g1._storage_root[entry.name]
 
         else:
             # Copy over this dataset. `_prepare_dataset` will make
@@ -2673,12 +2675,12 @@ def deep_group_copy(
             compression_kwargs = _prepare_compression_args(entry)
 
             g2.create_dataset(
-                key,
+                target_name,
                 **dset_args,
                 **compression_kwargs,
             )
 
-        target = g2[key]
+        target = g2[target_name]
         copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)
 
         if postprocess:
@@ -2809,7 +2811,7 @@ def _distributed_group_to_file(
 
             data.to_file(
                 dest,
-                name,
+                posixpath.relpath(name, group.name),
                 chunks=dset.chunks,
                 compression=dset.compression,
                 compression_opts=dset.compression_opts,
-- 
2.43.0


From b514b603a289c6a003d85cac7c81164236fb5fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:54 +0000
Subject: [PATCH 026/123] fix: a selection of a chunked dataset could not be
 saved again

The chunks of the full dataset were kept for the selected part, and h5py
refuses chunks which are larger than the data.
---
 caput/memdata/_memh5.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 5cb364d..66199d1 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2590,9 +2590,11 @@ def deep_group_copy(
 
         return dset_args
 
-    def _prepare_compression_args(dset: DatasetLike) -> dict:
+    def _prepare_compression_args(dset: DatasetLike, shape: tuple) -> dict:
         """Get compression options and chunking for this dataset.
 
+        The chunks are limited to `shape`, which a selection can make smaller.
+
         Returns: dict(compression, compression_opts, chunks)
         """
         compression = getattr(dset, "compression", None)
@@ -2610,7 +2612,10 @@ def deep_group_copy(
             compression_kwargs = fileformats.HDF5.compression_kwargs(
                 compression=compression, compression_opts=compression_opts
             )
-        compression_kwargs["chunks"] = getattr(dset, "chunks", None)
+        chunks = getattr(dset, "chunks", None)
+        if chunks is not None:
+            chunks = tuple(map(min, chunks, shape)) if all(shape) else None
+        compression_kwargs["chunks"] = chunks
 
         return compression_kwargs
 
@@ -2672,7 +2677,8 @@ def deep_group_copy(
             # Copy over this dataset. `_prepare_dataset` will make
             # a deep copy of the dataset
             dset_args = _prepare_dataset(entry)
-            compression_kwargs = _prepare_compression_args(entry)
+            shape = getattr(dset_args["data"], "global_shape", dset_args["shape"])
+            compression_kwargs = _prepare_compression_args(entry, shape)
 
             g2.create_dataset(
                 target_name,
-- 
2.43.0


From 484ac71220f2ccfe8c20ec13fa68eaf42bba3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:54 +0000
Subject: [PATCH 027/123] fix: MemDiskGroup did not close HDF5 files and could
 not close zarr ones

Which of the two formats has to be closed was inverted, and flush() was called
on zarr groups, which do not have it.
---
 caput/memdata/_memh5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 66199d1..21961ed 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1674,7 +1674,7 @@ class MemDiskGroup(_BaseGroup):
                 data_group, mode="a", file_format=file_format
             )
             # Zarr arrays are automatically flushed and closed
-            toclose = False if file_format == fileformats.HDF5 else toclose
+            toclose = toclose and isinstance(data_group, h5py.File)
 
         # Check the distribution settings
         if distributed:
@@ -2172,7 +2172,7 @@ class MemDiskGroup(_BaseGroup):
 
     def flush(self):
         """Flush the buffers of the underlying hdf5 file if on disk."""
-        if self.ondisk:
+        if self.ondisk and isinstance(self._data, h5py.File):
             self._data.flush()
 
     def copy(self, shared=[], shallow=False):
-- 
2.43.0


From c8dbc9fcf890411d1fd9b6abb08e84eeb36e40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:54 +0000
Subject: [PATCH 028/123] fix: files of an unknown container class could not be
 loaded

The warning about a class which cannot be imported was followed by an
UnboundLocalError instead of falling back to the requested class.
---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 21961ed..572cb6f 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1718,8 +1718,9 @@ class MemDiskGroup(_BaseGroup):
         # Try to get a reference to the requested class (warn if we cannot find it)
         try:
             new_cls = importtools.import_class(clspath)
-        except (ImportError, KeyError):
+        except (ImportError, KeyError, AttributeError):
             warnings.warn(f"Could not import memh5 subclass {clspath}")
+            return cls
 
         # Check that it is a subclass of MemDiskGroup
         if not issubclass(new_cls, MemDiskGroup):
-- 
2.43.0


From aa1c09d41dbb42ad5dd1805c64c6e4d83cf357a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:54 +0000
Subject: [PATCH 029/123] fix: data which lives on disk could not be saved or
 moved to memory

save() opened the target read only, and to_memory() looked up a filename which
zarr groups do not have.
---
 caput/memdata/_memh5.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 572cb6f..0549123 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1918,10 +1918,10 @@ class MemDiskGroup(_BaseGroup):
         lockfile = None
 
         if not ondisk:
-            if (zarr_available and isinstance(file_, zarr.Group)) or isinstance(
-                file_, h5py.Group
-            ):
-                file_ = file_.filename
+            if zarr_available and isinstance(file_, zarr.Group):
+                file_ = file_.store.path
+            elif isinstance(file_, h5py.Group):
+                file_ = file_.file.filename
 
             kwargs.pop("mode", None)
 
@@ -2249,8 +2249,15 @@ class MemDiskGroup(_BaseGroup):
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
         ):
+            kwargs.setdefault("mode", "a")
             with file_format.open(filename, **kwargs) as f:
-                deep_group_copy(self._data, f)
+                deep_group_copy(
+                    self._data,
+                    f,
+                    convert_attribute_strings=convert_attribute_strings,
+                    convert_dataset_strings=convert_dataset_strings,
+                    file_format=file_format,
+                )
         else:
             self._data.to_file(
                 filename,
-- 
2.43.0


From ab5224f73ed85a440a394c1239e08d4e465e9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:54 +0000
Subject: [PATCH 030/123] fix: distribution hints were not honoured

to_file(hints=False) wrote the hints of distributed groups anyway, and hints
given when reading could not turn off the distribution of a dataset.
---
 caput/memdata/_memh5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 0549123..d8fd7c4 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -677,6 +677,7 @@ class MemGroup(_BaseGroup):
                 self,
                 filename,
                 mode,
+                hints=hints,
                 convert_attribute_strings=convert_attribute_strings,
                 convert_dataset_strings=convert_dataset_strings,
                 file_format=file_format,
@@ -2917,9 +2918,8 @@ def _distributed_group_from_file(
             else:
                 dset_hints = hints_dict.get(item.name, {})
 
-                distributed = hints and (
-                    dset_hints.get("distributed", False)
-                    or item.attrs.get("__memh5_distributed_dset", False)
+                distributed = hints and dset_hints.get(
+                    "distributed", item.attrs.get("__memh5_distributed_dset", False)
                 )
                 # Check if we are in a distributed dataset
                 if distributed:
-- 
2.43.0


From 1f013985d4aaf727fe442eb4316d0d5f4dfd8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:19 +0000
Subject: [PATCH 031/123] fix: groups created by a MemDiskGroup could have a
 malformed name

Redundant slashes in the requested name were kept, so the new group did not
compare equal to the same group looked up later.
---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index d8fd7c4..7451324 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2118,7 +2118,7 @@ class MemDiskGroup(_BaseGroup):
         :py:exc:`ValueError`
             If the group name is not allowed.
         """
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
 
         if not self.group_name_allowed(path):
             raise ValueError(f"Group name {path} not allowed.")
-- 
2.43.0


From 9647204f14ed0362a48c5d7732e11cff68807f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:31 +0000
Subject: [PATCH 032/123] fix: data loaded from a bitshuffle compressed file
 could not be saved

Recent h5py versions describe the filter as 'unknown', which was kept as the
compression of the loaded dataset but can not be used to write it.
---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 7451324..7086273 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2609,6 +2609,10 @@ def deep_group_copy(
         compression = getattr(dset, "compression", None)
         compression_opts = getattr(dset, "compression_opts", None)
 
+        if compression == "unknown":
+            # This is what recent h5py versions report for any filter from a plugin
+            compression = None
+
         if to_file:
             # massage args according to file format
             compression_kwargs = file_format.compression_kwargs(
-- 
2.43.0


From 552ba214da3c5ba01b699586a4430d53287da98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:51 +0000
Subject: [PATCH 033/123] fix: dictionary attributes could not be copied
 between HDF5 files

They were decoded although the target needs the serialised form.
---
 caput/memdata/_memh5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 7086273..f425d44 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2427,7 +2427,11 @@ def copyattrs(a1, a2, convert_strings=False):
             # Save to JSON converting datetimes.
             encoder = Memh5JSONEncoder()
             value = json_prefix + encoder.encode(value)
-        elif isinstance(value, str) and value.startswith(json_prefix):
+        elif (
+            isinstance(value, str)
+            and value.startswith(json_prefix)
+            and not isinstance(a2, h5py.AttributeManager)
+        ):
             # Read from JSON, keep serialised datetimes as strings
             value = json.loads(value[len(json_prefix) :])
         return value
-- 
2.43.0


From 7d4dccad55baaca396d9915a0bcb2bbaffb50a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 034/123] fix: redistribute accepted negative axes a dataset
 does not have

---
 caput/containers/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 07b8ed9..d411cbc 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -251,7 +251,7 @@ class Container(memdata.MemDiskGroup):
                             axis = naxis + axis
 
                     # Check axis is within bounds
-                    if axis >= naxis:
+                    if not 0 <= axis < naxis:
                         continue
 
                     # Excellent, found a matching axis, time to redistribute
-- 
2.43.0


From 9fc3130d6d609d71b7997753a9874effcb37a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 035/123] fix: redistributed datasets could not be copied into
 a new container

copy_from and dsets_from raised a broadcast error when the source is not
distributed over the default axis.
---
 caput/containers/_core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index d411cbc..6c4342b 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -441,7 +441,16 @@ class ContainerPrototype(Container):
                 if name not in self:
                     self.add_dataset(name)
 
-                self[name][:] = source_dset[:]
+                dset = self[name]
+
+                # Keep the distribution of the source, which may have changed since it
+                # was created
+                if isinstance(
+                    source_dset, memdata.MemDatasetDistributed
+                ) and isinstance(dset, memdata.MemDatasetDistributed):
+                    dset.redistribute(source_dset.distributed_axis)
+
+                dset[:] = source_dset[:]
 
         # Copy over attributes
         if attrs_from is not None:
-- 
2.43.0


From 1df2cdaf248118dd4946e3bcfb3da662ef79c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 036/123] fix: copy_datasets_filter refused arrays and changed
 its selection

Array selections raised an ambiguous truth value error, empty lists an
IndexError, and entries which select everything were deleted from the
dictionary of the caller. The conversion of indices into slices never matched
a valid selection and is dropped.
---
 caput/containers/_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 18560c8..3926b58 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -91,16 +91,16 @@ def copy_datasets_filter(
             f"but selections for {list(selection.keys())}."
         )
 
-    # Try to clean up selections
+    # Try to clean up selections, without changing the argument
+    selection = dict(selection)
     for ax in list(selection):
         sel = selection[ax]
+        if isinstance(sel, np.ndarray):
+            sel = (np.flatnonzero(sel) if sel.dtype == bool else sel).tolist()
+            selection[ax] = sel
         # Remove any unnecessary slices
         if sel == slice(None):
             del selection[ax]
-        # Convert any indexed selections to slices where possible
-        elif type(sel) in {list, tuple, np.ndarray}:
-            if list(sel) == list(range(sel[0], sel[-1])):
-                selection[ax] = slice(sel[0], sel[-1])
 
     stack = [source]
 
-- 
2.43.0


From 3138cd734ab380ba40a46974a25b2cc19f7cf496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:25 +0000
Subject: [PATCH 037/123] fix: one element array attributes became scalars when
 saved to Zarr

---
 caput/memdata/_memh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index f425d44..7d94f4f 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2426,6 +2426,9 @@ def copyattrs(a1, a2, convert_strings=False):
         ):
             # Save to JSON converting datetimes.
             encoder = Memh5JSONEncoder()
+            # An attribute which is an array is still one when it has one element
+            if isinstance(value, np.ndarray):
+                value = value.tolist()
             value = json_prefix + encoder.encode(value)
         elif (
             isinstance(value, str)
-- 
2.43.0


From 8fd4fde0fc1a411ab69827f20d625d7e8833aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 038/123] fix: concatenating into a file lost the time axis

---
 caput/containers/tod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dd2df28..d620b67 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -468,7 +468,8 @@ def concatenate(
                 current_concat_index_start[axis],
                 current_concat_index_n[axis],
             )
-            out.index_map[axis][out_slice] = (
+            # NOTE: out.index_map gives a copy of the data when out is on disk
+            out._data["index_map"][axis][out_slice] = (
                 typeutils.ensure_unicode(data.index_map[axis][in_slice])
                 if convert_attribute_strings
                 else data.index_map[axis][in_slice]
-- 
2.43.0


From 2c727a99a5a091610b6d1516c9cb1bf3c3983bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 039/123] fix: concatenate changed its start and stop arguments

---
 caput/containers/tod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index d620b67..33ef504 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -382,6 +382,8 @@ def concatenate(
         start = dict.fromkeys(concatenation_axes, start)
     if not hasattr(stop, "__getitem__"):
         stop = dict.fromkeys(concatenation_axes, stop)
+    # ... which we can resolve below without changing the arguments
+    start, stop = dict(start), dict(stop)
 
     # Get the length of all axes for which we are concatenating.
     concat_index_lengths = dict.fromkeys(concatenation_axes, 0)
-- 
2.43.0


From 1ee2bb633e557a1219a98bc43835da7773221e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 040/123] fix: concatenate did not copy the history

---
 caput/containers/tod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 33ef504..d616788 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -437,6 +437,12 @@ def concatenate(
     for axis, reverse_map in first_data.reverse_map.items():
         out.create_reverse_map(axis, reverse_map)
 
+    # Copy over the history (including groups, which are a deprecated format)
+    history, out_history = first_data._data["history"], out._data["history"]
+    memdata.copyattrs(history.attrs, out_history.attrs)
+    for name, entry in history.items():
+        memdata.copyattrs(entry.attrs, out_history.require_group(name).attrs)
+
     all_dataset_names = _copy_non_time_data(
         data_list,
         out,
-- 
2.43.0


From 31bf0feb873215a0633ad006f5807ba29e63493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:16 +0000
Subject: [PATCH 041/123] fix: time axes of Zarr files were not recognised when
 concatenating

---
 caput/containers/tod.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index d616788..b839ee1 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -495,7 +495,7 @@ def concatenate(
             attrs = dataset.attrs
 
             # Figure out which axis we are concatenating over.
-            for a in typeutils.bytes_to_unicode(attrs["axis"]):
+            for a in _dset_axes(attrs):
                 if a in concatenation_axes:
                     axis = a
                     break
@@ -529,7 +529,7 @@ def concatenate(
                 attrs = dataset.attrs
 
             # Do this *after* the filter, in case filter changed axis order.
-            axis_ind = list(typeutils.bytes_to_unicode(attrs["axis"])).index(axis)
+            axis_ind = list(_dset_axes(attrs)).index(axis)
 
             # Slice input data if the filter doesn't do it.
             if not filter_time_slice:
@@ -717,11 +717,19 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
     if memdata.is_group(entry):
         return False
 
-    # Assume is a dataset. We need to ensure the output strings are Unicode as h5py may
-    # return them as byte strings if the input is an h5py.Dataset
-    dset_axes = typeutils.bytes_to_unicode(entry.attrs.get("axis", ()))
+    # Assume is a dataset.
+    return len(set(_dset_axes(entry.attrs)).intersection(axes)) > 0
 
-    return len(set(dset_axes).intersection(axes)) > 0
+
+def _dset_axes(attrs: Any) -> Sequence[str]:
+    """Get the names of the axes of a dataset from its attributes."""
+    # We need to ensure the output strings are Unicode as h5py may return them as byte
+    # strings, and to decode attributes which are stored as JSON if the input is a
+    # zarr.Array
+    decoded = {}
+    memdata.copyattrs(attrs, decoded, convert_strings=True)
+
+    return decoded.get("axis", ())
 
 
 # XXX andata still calls these.
-- 
2.43.0


From f8dc940401c08d5aa7c657a5fa795a7b7a3e1204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 042/123] fix: lock_file could hide an error and leave its lock
 behind

---
 caput/memdata/_io.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 09bddec..2d00df2 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 
 import os
 
+from .fileformats import remove_file_or_dir
+
 
 def open_h5py_mpi(f, mode, use_mpi=True, comm=None):
     """Ensure that we have an h5py File object.
@@ -108,16 +110,18 @@ class lock_file:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if self.rank0:
-            # Check if exception was raised and delete the temp file if needed
-            if exc_type is not None:
-                if not self.preserve:
-                    os.remove(self.tmpfile)
-            # Otherwise things were successful and we should move the file over
-            else:
-                os.rename(self.tmpfile, self.filename)
-
-            # Finally remove the lock file
-            os.remove(self.lockfile)
+            try:
+                # Check if exception was raised and delete the temp file if needed.
+                # This may be a directory, and may not have been created yet.
+                if exc_type is not None:
+                    if not self.preserve:
+                        remove_file_or_dir(self.tmpfile)
+                # Otherwise things were successful and we should move the file over
+                else:
+                    os.rename(self.tmpfile, self.filename)
+            finally:
+                # Finally remove the lock file
+                os.remove(self.lockfile)
 
         return False
 
-- 
2.43.0


From 26d03b400b04867fbdabfd5d70513439e6739964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:28 +0000
Subject: [PATCH 043/123] fix: group tasks could not write their output

---
 caput/pipeline/extensions/_extensions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 047b938..4aa69b7 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -348,6 +348,8 @@ class GroupIOMixin:
         """
         import h5py
 
+        from ...memdata import MemGroup
+
         file_format = fileformats.check_file_format(filename, file_format, output)
 
         try:
@@ -358,7 +360,7 @@ class GroupIOMixin:
 
         # Ensure parent directory is present.
         dirname = os.path.dirname(filename)
-        if not os.path.isdir(dirname):
+        if dirname != "" and not os.path.isdir(dirname):
             try:
                 os.makedirs(dirname)
             except OSError as e:
@@ -385,7 +387,7 @@ class GroupIOMixin:
             else:
                 # Copy to memory then to disk
                 # XXX This can be made much more efficient using a direct copy.
-                out_copy = MemGroup.from_hdf5(output)
+                out_copy = MemGroup.from_group(output)
 
                 # Lock file as we write
                 with lock_file(filename, comm=out_copy.comm) as fn:
@@ -406,9 +408,9 @@ class GroupIOMixin:
                         zarr.DirectoryStore(filename),
                         source_path=output.path,
                     )
-                logger.debug(
-                    f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
-                )
+                    logger.debug(
+                        f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
+                    )
 
 
 class ContainerIOMixin:
-- 
2.43.0


From af2ca312d7253d94027c558c78da44da918bb7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:28 +0000
Subject: [PATCH 044/123] fix: lock_file could not replace an existing Zarr
 directory

---
 caput/memdata/_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 2d00df2..9b02105 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -118,6 +118,9 @@ class lock_file:
                         remove_file_or_dir(self.tmpfile)
                 # Otherwise things were successful and we should move the file over
                 else:
+                    # A directory can't replace one which is not empty
+                    if os.path.isdir(self.tmpfile):
+                        remove_file_or_dir(self.filename)
                     os.rename(self.tmpfile, self.filename)
             finally:
                 # Finally remove the lock file
-- 
2.43.0


From 8664889e7ea0bfdf2b898de7ab046d0259dbb828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:15 +0000
Subject: [PATCH 045/123] fix: group tasks could not write a copy of an HDF5
 group

---
 caput/pipeline/extensions/_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 4aa69b7..2e01f94 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -348,7 +348,7 @@ class GroupIOMixin:
         """
         import h5py
 
-        from ...memdata import MemGroup
+        from ...memdata import MemGroup, deep_group_copy
 
         file_format = fileformats.check_file_format(filename, file_format, output)
 
@@ -387,7 +387,8 @@ class GroupIOMixin:
             else:
                 # Copy to memory then to disk
                 # XXX This can be made much more efficient using a direct copy.
-                out_copy = MemGroup.from_group(output)
+                out_copy = MemGroup()
+                deep_group_copy(output, out_copy)
 
                 # Lock file as we write
                 with lock_file(filename, comm=out_copy.comm) as fn:
-- 
2.43.0


From 627dd1edafe87c414f4a0077858c539574524de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:27 +0000
Subject: [PATCH 046/123] fix: pipelines failed when a task turned one array
 into another

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 36d921f..555f849 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -1142,7 +1142,7 @@ class Task(config.Reader):
                 # Let the user know if there's a chance that data has been
                 # modified in-place
                 for opt in out if isinstance(out, tuple | list) else (out,):
-                    if opt in args:
+                    if any(opt is arg for arg in args):
                         logger.debug(
                             f"Task {self!s} may have modified dataset {opt!r} in-place. "
                             "If you encounter unexpected results, check that this is "
-- 
2.43.0


From 9c297196532d3f18063357782487fae232af20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:27 +0000
Subject: [PATCH 047/123] fix: the key_pattern setting of a pipeline had no
 effect

---
 caput/pipeline/_pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 555f849..de94986 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -148,6 +148,10 @@ class Manager(config.Reader):
         # Precompile the key pattern to skip
         self.key_match = re.compile(self.key_pattern)
 
+    def _finalise_config(self):
+        """Apply the key pattern set by the config."""
+        self.key_match = re.compile(self.key_pattern)
+
     @classmethod
     def from_yaml_file(cls, file_name, lint=False, psutil_profiling=False):
         """Initialize the pipeline from a YAML configuration file.
-- 
2.43.0


From 64d73535abb10afa2dd056535ef11f9928d2e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:59 +0000
Subject: [PATCH 048/123] fix: configuration errors did not report their line
 numbers

---
 caput/config.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index a138da1..6412885 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -52,10 +52,11 @@ from __future__ import annotations
 import logging
 from typing import TYPE_CHECKING
 
+from yaml.dumper import Dumper, SafeDumper
 from yaml.loader import SafeLoader
 
 if TYPE_CHECKING:
-    from collections.abc import Callable, Mapping
+    from collections.abc import Callable, Iterator, Mapping
     from typing import Any
 
     import numpy.typing as npt
@@ -547,6 +548,21 @@ class SafeLineLoader(SafeLoader):
 
         return mapping
 
+    def construct_yaml_map(self, node: MappingNode) -> Iterator[Mapping]:
+        """Construct a mapping which keeps its line number."""
+        mapping = _line_dict()
+        mapping.__line__ = node.start_mark.line + 1
+        yield mapping
+        mapping.update(self.construct_mapping(node))
+
+
+SafeLineLoader.add_constructor(
+    "tag:yaml.org,2002:map", SafeLineLoader.construct_yaml_map
+)
+# Configs are written out as normal mappings
+for _dumper in (Dumper, SafeDumper):
+    _dumper.add_representer(_line_dict, _dumper.represent_dict)
+
 
 class CaputConfigError(RuntimeError):
     r"""There was an error in the configuration.
@@ -557,20 +573,24 @@ class CaputConfigError(RuntimeError):
         Message / description of error
     file\_ : str | None, optional
         Configuration file name.
-    location : \_line\_dict | None, optional
+    location : \_line\_dict | int | None, optional
         If using :py:class:`.SafeLineLoader` is used, a dict created by that can be
-        passed in here to report the line number where the error occurred.
+        passed in here to report the line number where the error occurred. The line
+        number itself may also be given.
     """
 
     def __init__(
-        self, message: str, file_: str | None = None, location: _line_dict | None = None
+        self,
+        message: str,
+        file_: str | None = None,
+        location: _line_dict | int | None = None,
     ) -> None:
         self.message = message
         self.file = file_
         if isinstance(location, _line_dict):
             self.line = location.__line__
         else:
-            self.line = None
+            self.line = location if isinstance(location, int) else None
         super().__init__(message)
 
     def __str__(self) -> str:
-- 
2.43.0


From 12f55e297696424e9c1771fdf955fcef26bc23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:59 +0000
Subject: [PATCH 049/123] fix: a config without a pipeline section raised a
 bare KeyError

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index de94986..1d1f8b1 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -208,7 +208,7 @@ class Manager(config.Reader):
                     f"`{type(yaml_params['pipeline']).__name__}` (expected a dict here).",
                     location=yaml_params,
                 )
-        except TypeError as e:
+        except (KeyError, TypeError) as e:
             raise config.CaputConfigError(
                 "Couldn't find key 'pipeline' in YAML configuration document.",
                 location=yaml_params,
-- 
2.43.0


From e0decebbef157f879ab2c788fd3cc37447dd7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:47 +0000
Subject: [PATCH 050/123] fix: an unknown task type without a module raised a
 bare KeyError

---
 caput/pipeline/_pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 1d1f8b1..a0f392b 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -591,6 +591,7 @@ class Manager(config.Reader):
             except (
                 config.CaputConfigError,
                 AttributeError,
+                KeyError,
                 ModuleNotFoundError,
             ) as exc:
                 raise config.CaputConfigError(
-- 
2.43.0


From 37a823f3e2c550dfe14736a33d5c09d10075919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 051/123] fix: float_in_range accepted NaN

---
 caput/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 6412885..2a6b8ec 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -346,7 +346,8 @@ def float_in_range(
     def _prop(val):
         val = float(val)
 
-        if val < start or val > end:
+        # Also refuse NaN, for which every comparison is False
+        if not (start <= val <= end):
             raise CaputConfigError(f"Input {val:f} not in range [{start:f}, {end:f}]")
 
         return val
-- 
2.43.0


From 73b0ac5220d0d335371bdafbb849f14883f1d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:02 +0000
Subject: [PATCH 052/123] fix: file_format properties refused their documented
 values

---
 caput/pipeline/extensions/_configtypes.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/extensions/_configtypes.py b/caput/pipeline/extensions/_configtypes.py
index c82a5bf..fae1c14 100644
--- a/caput/pipeline/extensions/_configtypes.py
+++ b/caput/pipeline/extensions/_configtypes.py
@@ -45,7 +45,7 @@ def file_format(default=None):
         if val is None:
             return None
 
-        if issubclass(val, fileformats.FileFormat):
+        if isinstance(val, type) and issubclass(val, fileformats.FileFormat):
             return val
 
         if not isinstance(val, str):
@@ -62,9 +62,7 @@ def file_format(default=None):
 
         raise CaputConfigError(f"Input {val!r} needs to be one of {options})")
 
-    if default is not None and (
-        (not isinstance(default, str)) or (default.lower() not in options)
-    ):
-        raise CaputConfigError(f"Default value {default!r} must be in {options}")
+    # Check that the default is valid
+    _prop(default)
 
     return Property(proptype=_prop, default=default)
-- 
2.43.0


From 12973fd887e221af3130ceae71ec8b171e53cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:20 +0000
Subject: [PATCH 053/123] fix: single and iterating tasks failed for array
 inputs and did not cast empty ones

---
 caput/pipeline/extensions/_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 2e01f94..c0c9b19 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -216,7 +216,7 @@ class SingleBase(_OneAndOne):
         except AttributeError:
             self.done = True
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         return self.read_process_write(input, self.input_filename, self.output_filename)
 
@@ -288,7 +288,7 @@ class IterBase(_OneAndOne):
             input_filename = middle + self.input_ext
             output_filename = middle + self.output_ext
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         output = self.read_process_write(input, input_filename, output_filename)
         self.iteration += 1
-- 
2.43.0


From 25c9297d915af9e3aacd584367c95d0a0a5462fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:20 +0000
Subject: [PATCH 054/123] fix: tasks could not write output to the current
 directory

---
 caput/pipeline/extensions/_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index c0c9b19..9da166d 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -132,8 +132,8 @@ class _OneAndOne(Task):
                 "%s writing data to file %s.", self.__class__.__name__, output_filename
             )
             output_dirname = os.path.dirname(output_filename)
-            if not os.path.isdir(output_dirname):
-                os.makedirs(output_dirname)
+            if output_dirname != "":
+                os.makedirs(output_dirname, exist_ok=True)
             self.write_output(
                 output_filename,
                 output,
-- 
2.43.0


From dfa41b77595bbd990025c7f1665a9235a9743aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:39 +0000
Subject: [PATCH 055/123] fix: the Delete and MakeCopy tasks did nothing in a
 pipeline

---
 caput/pipeline/tasklib/flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/flow.py b/caput/pipeline/tasklib/flow.py
index c0ea04d..3b15865 100644
--- a/caput/pipeline/tasklib/flow.py
+++ b/caput/pipeline/tasklib/flow.py
@@ -100,7 +100,7 @@ class GatherInputs(MPILoggedTask):
 class Delete(MPILoggedTask):
     """Delete pipeline products to free memory."""
 
-    def process(self, x):
+    def next(self, x):
         """Delete the input and collect garbage.
 
         Parameters
@@ -118,7 +118,7 @@ class Delete(MPILoggedTask):
 class MakeCopy(MPILoggedTask):
     """Make a copy of the passed object."""
 
-    def process(self, data):
+    def next(self, data):
         """Return a deep copy of the given object.
 
         Parameters
-- 
2.43.0


From eaf8555741f97478ea0713f9bfcf8fa78942dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:28 +0000
Subject: [PATCH 056/123] fix: container tasks could not be used when
 save_config was false

---
 caput/pipeline/tasklib/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 9af355f..858c449 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -305,7 +305,9 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
     # Metadata to get attached to the output
     versions = config.Property(default={}, proptype=dict)
-    pipeline_config = config.Property(default={}, proptype=dict)
+    pipeline_config = config.Property(
+        default={}, proptype=lambda x: {} if x is None else dict(x)
+    )
 
     tag = config.Property(proptype=str, default="{tag}")
     attrs = config.Property(proptype=dict, default=None)
-- 
2.43.0


From 9279a5a90e302f73c33cbbdba454716ad10aed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:56 +0000
Subject: [PATCH 057/123] fix: outputs of tasks with untagged inputs overwrote
 each other

---
 caput/pipeline/tasklib/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 858c449..05c9246 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -352,7 +352,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
         # Extract a list of the tags for all input arguments
         input_tags = [
-            (str(icont.attrs.get("tag")) if isinstance(icont, MemDiskGroup) else "")
+            (str(icont.attrs.get("tag", "")) if isinstance(icont, MemDiskGroup) else "")
             for icont in input
         ]
 
@@ -560,7 +560,8 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
         idict = dict(output.attrs)
         if "tag" in output.attrs:
             tag = output.attrs["tag"]
-        elif "input_tags" in output.attrs and len(output.attrs["input_tags"]):
+        elif any(output.attrs.get("input_tags", [])[:1]):
+            # Untagged inputs have an empty tag
             tag = output.attrs["input_tags"][0]
         else:
             tag = self._count
-- 
2.43.0


From b6e8f586f5afab9cc12414febe133aa5df9f13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:44 +0000
Subject: [PATCH 058/123] fix: moving weighted median tree nodes had an
 uninitialised flag

---
 caput/algorithms/median/MedianTreeNode.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/algorithms/median/MedianTreeNode.hpp b/caput/algorithms/median/MedianTreeNode.hpp
index a0a8357..2394391 100644
--- a/caput/algorithms/median/MedianTreeNode.hpp
+++ b/caput/algorithms/median/MedianTreeNode.hpp
@@ -61,6 +61,7 @@ Node<T>::Node(const T& element, const double weight) :
     right_weight = 0.0;
     left = nullptr;
     right = nullptr;
+    left_child = false;
 }
 
 /* Destructor for Node. */
-- 
2.43.0


From 489e842f43dfb807bd0251e45162cb73ecf11df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:35 +0000
Subject: [PATCH 059/123] fix: moving weighted median read outside of weights
 of another shape

---
 caput/algorithms/median/weighted.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 9fdb91a..3441118 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -317,10 +317,10 @@ def _check_arrays(
     if np.iscomplexobj(weights):
         raise ValueError(f"Weights must be real (got {weights.dtype})")
 
-    if data.ndim != weights.ndim:
+    if data.shape != weights.shape:
         raise ValueError(
-            f"Expected data and weights to have same dimensions "
-            f"(is {data.ndim} and {weights.ndim})."
+            f"Expected data and weights to have same shape "
+            f"(is {data.shape} and {weights.shape})."
         )
 
     return data, weights
-- 
2.43.0


From 52243c1575e297e86df6f9fe22e4b79d04d66313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:35 +0000
Subject: [PATCH 060/123] fix: moving weighted median accepted negative window
 sizes

---
 caput/algorithms/median/weighted.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 3441118..71bc314 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -342,6 +342,8 @@ def moving_weighted_median(data, weights, size, method = "split"):
 
     if size == 0:
         raise ValueError('Got size=0, what do you expect me to do with that?')
+    if np.any(np.asarray(size) < 0):
+        raise ValueError('Need a positive window size (got {}).'.format(size))
     if size == 1:
         return np.where(weights != 0, data, weights)
 
-- 
2.43.0


From 9e15d9ee8635f06535e5ed39a60fb6ce31214214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:35 +0000
Subject: [PATCH 061/123] fix: moving weighted median of empty data wrote out
 of bounds

---
 caput/algorithms/median/weighted.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 71bc314..7d007d0 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -355,11 +355,15 @@ def moving_weighted_median(data, weights, size, method = "split"):
 
         if size % 2 == 0:
             raise ValueError('Need an uneven window size (got {}).'.format(size))
+        if data.size == 0:
+            return np.zeros(data.shape, dtype=np.float64)
         return _mwm_1D(data, weights, size, c_method)
 
     if data.ndim == 2:
         if any(np.asarray(size) % 2 == 0):
             raise ValueError('Need an uneven window size (got {}).'.format(size))
+        if data.size == 0:
+            return np.zeros(data.shape, dtype=np.float64)
         # Window moves along column rather than row, so if the window size 
         # in dim 1 is larger than dim 0 this will run significantly faster
         # on the transposed array
-- 
2.43.0


From 431ecfba97be3bda62877d1543c5f7c058cdceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:35 +0000
Subject: [PATCH 062/123] fix: weighted quantile accepted NaN as quantile and
 read out of bounds

---
 caput/algorithms/median/weighted.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 7d007d0..5c5e40f 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -215,7 +215,7 @@ def quantile(A, W, q, method = "split"):
     if A.shape != W.shape:
         raise ValueError("Shapes of A and W much match.")
 
-    if q < 0 or q > 1:
+    if not 0 <= q <= 1:
         raise ValueError("Quantile must be a number between zero and one.")
 
     # Reshape the arrays to 2D. The last axis is the one along which the quantile will
-- 
2.43.0


From 2604e39cfdf98a1da86c8e5ae8518a3b9884935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:35 +0000
Subject: [PATCH 063/123] fix: weighted quantile failed for arrays that are not
 contiguous

---
 caput/algorithms/median/weighted.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5c5e40f..65e45c6 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -220,8 +220,8 @@ def quantile(A, W, q, method = "split"):
 
     # Reshape the arrays to 2D. The last axis is the one along which the quantile will
     # be calculated
-    Ar = A.reshape(-1, A.shape[-1])
-    Wr = W.reshape(-1, W.shape[-1])
+    Ar = np.ascontiguousarray(A.reshape(-1, A.shape[-1]))
+    Wr = np.ascontiguousarray(W.reshape(-1, W.shape[-1]))
 
     # Allocate the temporaries and output arrays
     At = np.ndarray(Ar.shape[-1], dtype=A.dtype)
-- 
2.43.0


From 236fe775bcb7322116e021867dadc800573ff6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:02 +0000
Subject: [PATCH 064/123] fix: moving weighted median failed for types that can
 be converted to float64

---
 caput/algorithms/median/weighted.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 65e45c6..ab37a61 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -323,6 +323,13 @@ def _check_arrays(
             f"(is {data.shape} and {weights.shape})."
         )
 
+    # Convert any types which are not supported directly
+    supported = (np.intc, np.int_, np.single, np.double)
+    if not any(data.dtype == t for t in supported):
+        data = data.astype(np.float64)
+    if not any(weights.dtype == t for t in supported):
+        weights = weights.astype(np.float64)
+
     return data, weights
 
 
-- 
2.43.0


From 54dc07b780887149913fce68bd4e36a66f712701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:22 +0000
Subject: [PATCH 065/123] fix: the lower zero quantile could be an element
 without weight

---
 caput/algorithms/median/weighted.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index ab37a61..c09c027 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -107,9 +107,11 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
 
             j = _min_non_zero(A, W, jj + 1, len(A) - 1)
 
-            if (W[j] == 0 and W[i] > 0) or method == "l":
+            if W[i] == 0 and W[j] > 0:
+                return A[j]
+            elif (W[j] == 0 and W[i] > 0) or method == "l":
                 return A[i]
-            elif (W[i] == 0 and W[j] > 0) or method == "h":
+            elif method == "h":
                 return A[j]
             else:  # method == "s":
                 return <data_t>((A[i] + A[j]) / 2)
-- 
2.43.0


From 0ec276f79bee70dc060fc23c409e4c2f93dbf62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:40 +0000
Subject: [PATCH 066/123] fix: invert_no_zero failed for zero and for sequences

---
 caput/algorithms/_invert_no_zero/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 3d87d89..4b905df 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -35,7 +35,10 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
             f"{np.shape(x)} != {out.shape}."
         )
 
-    if not isinstance(x, np.generic | np.ndarray) or np.issubdtype(x.dtype, np.integer):
+    if not isinstance(x, np.generic | np.ndarray):
+        x = np.asarray(x)
+
+    if not np.issubdtype(x.dtype, np.inexact):
         with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
             inv = np.where(x == 0, 0.0, 1.0 / x)
 
-- 
2.43.0


From 732a9464509e1fa433d9621b0ad5c799a6b801a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:53 +0000
Subject: [PATCH 067/123] fix: the second derivative of the spherical Bessel
 functions was wrong

---
 caput/astro/coordinates/bessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/bessel.py b/caput/astro/coordinates/bessel.py
index 1e29daa..a59220e 100644
--- a/caput/astro/coordinates/bessel.py
+++ b/caput/astro/coordinates/bessel.py
@@ -93,7 +93,7 @@ def jl_d2(l, z):
     jl1 = jl(l + 1, z)
     jl2 = jl(l + 2, z)
 
-    return jl2 - (2 * l / z) * jl1 + ((l**2 - 1) / z**2) * jl0
+    return jl2 - ((2 * l + 1) / z) * jl1 + ((l**2 - l) / z**2) * jl0
 
 
 def _jl_approx_lowz(l, z):
-- 
2.43.0


From 9589b07a7748965d06814ddb0089831a3ca07a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:53 +0000
Subject: [PATCH 068/123] fix: spherical Bessel functions of low order were
 wrong for tiny arguments

---
 caput/astro/coordinates/bessel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/caput/astro/coordinates/bessel.py b/caput/astro/coordinates/bessel.py
index a59220e..9d7ceb8 100644
--- a/caput/astro/coordinates/bessel.py
+++ b/caput/astro/coordinates/bessel.py
@@ -36,9 +36,7 @@ def jl(l, z):
 
     zca = np.logical_and(z == 0.0, l > 0)
     zza = np.where(zca)
-    lca = np.logical_and(
-        np.logical_or(np.logical_and(l > 20, z < (l / 5.0)), z < (l * 1e-6)), z > 0.0
-    )
+    lca = np.logical_and(np.logical_and(l > 20, z < (l / 5.0)), z > 0.0)
     lza = np.where(lca)
     hca = np.logical_and(l > 20, z > 10.0 * l)
     hza = np.where(hca)
-- 
2.43.0


From a0a5b065508db9ca9077f9d4d29d947aee7bcc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:53 +0000
Subject: [PATCH 069/123] fix: jl returned only the first value for sequences

---
 caput/astro/coordinates/bessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/bessel.py b/caput/astro/coordinates/bessel.py
index 9d7ceb8..2a97291 100644
--- a/caput/astro/coordinates/bessel.py
+++ b/caput/astro/coordinates/bessel.py
@@ -50,7 +50,7 @@ def jl(l, z):
     jla[hza] = _jl_approx_highz(la[hza], za[hza])
     jla[gza] = ss.spherical_jn(la[gza], za[gza])
 
-    if isinstance(lt, np.ndarray) or isinstance(zt, np.ndarray):
+    if any(isinstance(a, np.ndarray) or np.ndim(a) > 0 for a in (lt, zt)):
         return jla
     return jla[0]
 
-- 
2.43.0


From fae9e88f5717236950e7448d8fbbf96320567f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:53 +0000
Subject: [PATCH 070/123] fix: cart_to_sph truncated the angles of integer
 vectors

---
 caput/astro/coordinates/_spherical.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 120bc84..4ac7d51 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -56,6 +56,12 @@ def sph_to_cart(sph_coords):
 
 
 def cart_to_sph(cart_arr):
+    cart_arr = np.asarray(cart_arr)
+
+    # Angles can't be represented by integers
+    if not np.issubdtype(cart_arr.dtype, np.floating):
+        cart_arr = cart_arr.astype(np.float64)
+
     sph_arr = np.empty_like(cart_arr)
 
     sph_arr[..., 2] = np.arctan2(cart_arr[..., 1], cart_arr[..., 0])
-- 
2.43.0


From 6ce17bf2e07badfd4b17e054aa757b794ed3427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:53 +0000
Subject: [PATCH 071/123] fix: norm_vec2 did not normalise arrays that are not
 contiguous

---
 caput/astro/coordinates/_spherical.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 4ac7d51..e6787bf 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -132,7 +132,8 @@ def norm_vec2(vec2):
     if not isinstance(vec2, np.ndarray) or vec2.shape[-1] != 2:
         raise ValueError("Argument must be a numpy array with last axis of length 2.")
 
-    vec_view = vec2.reshape(-1, 2)
+    vec = np.ascontiguousarray(vec2, dtype=np.float64)
+    vec_view = vec.reshape(-1, 2)
 
     n = vec_view.shape[0]
 
@@ -143,6 +144,10 @@ def norm_vec2(vec2):
             vec_view[i, 0] /= norm
             vec_view[i, 1] /= norm
 
+    # If it could not be modified directly we still need to set the result
+    if not np.may_share_memory(vec, vec2):
+        vec2[...] = vec
+
 
 def great_circle_points(sph1, sph2, npoints):
 
-- 
2.43.0


From 0bd85b8f5b698f414542c9b1ec1737ac307f5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:24 +0000
Subject: [PATCH 072/123] fix: large samples of MultithreadedRNG.poisson were
 of another type than small ones

---
 caput/algorithms/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 74b8156..23f8d4f 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -80,7 +80,7 @@ class MultithreadedRNG(np.random.Generator):
         "uniform": (2, np.float64, False, False),
         "normal": (2, np.float64, False, False),
         "standard_normal": (0, np.float64, True, True),
-        "poisson": (1, np.float64, False, False),
+        "poisson": (1, np.int64, False, False),
         "power": (1, np.float64, False, False),
     }
 
-- 
2.43.0


From 8965090589ba8d976bf05b99d89f58ac8aabe80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:24 +0000
Subject: [PATCH 073/123] fix: MultithreadedRNG.integers ignored endpoint given
 by position

---
 caput/algorithms/random.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 23f8d4f..7628b3f 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -188,11 +188,15 @@ class MultithreadedRNG(np.random.Generator):
             # Check that any remaining kwargs (assumed to be parameters are also scalar)
             all_scalar &= all(np.isscalar(arg) for arg in kwargs.values())
 
+            # Any positional arguments after those we know about are further parameters
+            # (e.g. `endpoint` for integers), which we would lose
+            has_extra = len(orig_args) > nparam + 1 + has_dtype + has_out
+
             # If neither size nor out is set we can't parallelise this so just call
             # directly.
             # Additionally if the distribution arguments are not scalars there may be
             # some complex broadcasting required, so we also drop out if that is true.
-            if (size is None and out is None) or not all_scalar:
+            if (size is None and out is None) or not all_scalar or has_extra:
                 return method(self, *orig_args, **orig_kwargs)
 
             flatsize = np.prod(size)
-- 
2.43.0


From d7450d6b1010d1acb17077f50638e42a6382a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:44 +0000
Subject: [PATCH 074/123] fix: MultithreadedRNG ignored a size that does not
 match the output

---
 caput/algorithms/random.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 7628b3f..42542c7 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -164,9 +164,12 @@ class MultithreadedRNG(np.random.Generator):
                 out = None
 
             if out is not None:
-                # We can only fill contiguous arrays in place. Other arrays are not
-                # supported by the underlying method, so let it deal with the error.
-                if not out.flags.c_contiguous:
+                # We can only fill contiguous arrays in place. Other arrays, and those
+                # which don't match the requested size, are not supported by the
+                # underlying method, so let it deal with the error.
+                if not out.flags.c_contiguous or (
+                    size is not None and tuple(np.atleast_1d(size)) != out.shape
+                ):
                     return method(self, *orig_args, **orig_kwargs)
 
                 size = out.shape
-- 
2.43.0


From bf17ad7eadd940dfb4127e6f7a6769534dab60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:45 +0000
Subject: [PATCH 075/123] fix: searches for transits, risings and settings used
 larger steps than requested

---
 caput/astro/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/astro/observer.py b/caput/astro/observer.py
index 091ea6b..289e7d1 100644
--- a/caput/astro/observer.py
+++ b/caput/astro/observer.py
@@ -924,7 +924,8 @@ def _solve_all(
         If the gradient at the root is positive.
     """
     # Form a grid of points to find intervals to search over
-    x_init = np.linspace(x0, x1, int(np.ceil((x1 - x0) / dx)), endpoint=True)
+    # with a spacing of at most dx
+    x_init = np.linspace(x0, x1, int(np.ceil((x1 - x0) / dx)) + 1, endpoint=True)
     f_init = f(x_init)
 
     roots = []
-- 
2.43.0


From f9554635747ed7f0cf243638259707e09fc58bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:45 +0000
Subject: [PATCH 076/123] fix: datetime_to_timestr did not convert datetimes of
 other time zones to UTC

---
 caput/astro/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 1764c69..b65f7b1 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -228,6 +228,10 @@ def datetime_to_timestr(dt):
     --------
     :py:func:`timestr_to_datetime`
     """
+    # The format represents UTC times
+    if dt.tzinfo is not None:
+        dt = dt.astimezone(timezone.utc)
+
     return dt.strftime("%Y%m%dT%H%M%SZ")
 
 
-- 
2.43.0


From b6ea462ec2831f55eed14a286eaf96b692abd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:45 +0000
Subject: [PATCH 077/123] fix: time_of_day failed for empty arrays

---
 caput/astro/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index b65f7b1..ecbec5f 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -362,7 +362,7 @@ def naive_datetime_to_utc(dt):
     return dt
 
 
-@arraytools.vectorize()
+@arraytools.vectorize(otypes=[np.float64])
 def time_of_day(time):
     """Return the time since the start of the UTC day in seconds.
 
-- 
2.43.0


From 182c5ede8ffbca04560c6d27024172b57e7229b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:45 +0000
Subject: [PATCH 078/123] fix: conversions of empty arrays failed if another
 argument was a scalar

---
 caput/util/arraytools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index e048953..9a1a148 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -241,7 +241,8 @@ def scalarize(dtype: npt.DTypeLike = np.float64) -> Callable:
 
             args, scalar, empty = zip(*[self._make_array(a) for a in args])
 
-            if all(empty):
+            # Scalars can be broadcast against empty arrays
+            if any(empty) and all(e or s for e, s in zip(empty, scalar)):
                 return np.array([], dtype=dtype)
 
             ret = self.func(*args, **kwargs)
-- 
2.43.0


From dc80b03164a75d68d84cf4945b88de7adb0c0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:45 +0000
Subject: [PATCH 079/123] fix: scalarized functions failed for arrays without
 dimensions

---
 caput/util/arraytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index 9a1a148..f8a6637 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -266,7 +266,7 @@ def scalarize(dtype: npt.DTypeLike = np.float64) -> Callable:
                     scalar = True
                     x = x.ts.tt_jd(np.array([x.tt]))
 
-            elif isinstance(x, np.ndarray):
+            elif isinstance(x, np.ndarray) and x.ndim > 0:
                 scalar = False
 
             elif isinstance(x, list | tuple):
-- 
2.43.0


From 931c0ff7fe785cfad7329aed9535bca0ce75db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 080/123] fix: unix_to_lst failed for empty arrays

---
 caput/astro/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/observer.py b/caput/astro/observer.py
index 289e7d1..683aea1 100644
--- a/caput/astro/observer.py
+++ b/caput/astro/observer.py
@@ -249,7 +249,7 @@ class Observer:
         # Solve for the next transit of that RA after start_unix
         return self.lsa_to_unix(lsa, start_unix)
 
-    @arraytools.listize()
+    @arraytools.scalarize()
     def unix_to_lst(self, unix):
         """Calculate the apparent Local Sidereal Time for the given UNIX time.
 
-- 
2.43.0


From 270fca8644103b3e4452c23a50a09cc100f7ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:30 +0000
Subject: [PATCH 081/123] fix: list_of_filelists did not flatten nested lists
 and changed them

---
 caput/pipeline/tasklib/io.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 16a6995..648b0bf 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -65,21 +65,12 @@ def list_of_filelists(files):
     flattened_list : list[PathLike]
         The input file list. Any glob patterns will be flattened to file path string lists.
     """
-    import glob
-
     f2 = []
 
     for filelist in files:
-        if isinstance(filelist, str):
-            if "*" not in filelist and not os.path.isfile(filelist):
-                raise config.CaputConfigError(f"File not found: {filelist!s}")
-            filelist = glob.glob(filelist)
-        elif isinstance(filelist, list):
-            for i in range(len(filelist)):
-                filelist[i] = list_or_glob(filelist[i])
-        else:
+        if not isinstance(filelist, str | list):
             raise config.CaputConfigError("Must be list or glob pattern.")
-        f2 = f2 + filelist
+        f2 = f2 + list_or_glob(filelist)
 
     return f2
 
-- 
2.43.0


From 116778f59c4cde2a060292cc559d7e2e2b09bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:30 +0000
Subject: [PATCH 082/123] fix: file groups supported only some glob patterns,
 in any order, and no Zarr directories

---
 caput/pipeline/tasklib/io.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 648b0bf..7f847d8 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -145,8 +145,6 @@ def list_of_filegroups(groups):
     :py:exc:`~caput.config.CaputConfigError`
         If `groups` has the wrong format.
     """
-    import glob
-
     # Convert to list if the group was not included in a list
     if not isinstance(groups, list):
         groups = [groups]
@@ -169,9 +167,7 @@ def list_of_filegroups(groups):
         flist = []
 
         for fname in files:
-            if "*" not in fname and not os.path.isfile(fname):
-                raise config.CaputConfigError(f"File not found: {fname!s}")
-            flist += glob.glob(fname)
+            flist += list_or_glob(fname)
 
         if not len(flist):
             raise config.CaputConfigError(f"No files in group exist ({files!s}).")
-- 
2.43.0


From 3d87d10114100f632f42051523a829771db0b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:30 +0000
Subject: [PATCH 083/123] fix: WaitZarrZip failed when there was nothing to
 wait for

---
 caput/pipeline/tasklib/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 7f847d8..017677c 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1033,7 +1033,7 @@ class WaitZarrZip(MPILoggedTask):
 
     def finish(self):
         """Wait for all Zarr zipping jobs to complete."""
-        for h in self._handles:
+        for h in self._handles or []:
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-- 
2.43.0


From 0896ef31304636a5ce1d1a423da597faadd3224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:30 +0000
Subject: [PATCH 084/123] fix: WaitZarrZip could wait forever for jobs with
 much output

---
 caput/pipeline/tasklib/io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 017677c..33cd0ee 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1037,12 +1037,13 @@ class WaitZarrZip(MPILoggedTask):
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-                returncode = h.handle.wait()
+                # Read the output while waiting, such that the job can't stall writing it
+                stdout, stderr = h.handle.communicate()
 
-                if returncode != 0 or not os.path.exists(h.filename):
+                if h.handle.returncode != 0 or not os.path.exists(h.filename):
                     self.log.debug("Error occurred while zipping. Debug logs follow...")
-                    self.log.debug(f"stdout={h.handle.stdout}")
-                    self.log.debug(f"stderr={h.handle.stderr}")
+                    self.log.debug(f"stdout={stdout}")
+                    self.log.debug(f"stderr={stderr}")
                     raise RuntimeError(f"Error occurred while zipping {h.filename}.")
 
             self.comm.Barrier()
-- 
2.43.0


From 88d7be8ff1b9281f8e76241f6a38296a88635d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:30 +0000
Subject: [PATCH 085/123] fix: SaveZarrZip did not quote file names, and could
 remove other files

---
 caput/pipeline/tasklib/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 33cd0ee..49bf7dc 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -29,6 +29,7 @@ These are specified in the YAML file as a dictionary like below.
 from __future__ import annotations
 
 import os
+import shlex
 import shutil
 import subprocess
 from functools import partial
@@ -996,12 +997,14 @@ class SaveZarrZip(ZipZarrContainers):
             # Run 7z to zip up the file
             dest_file = outfile + ".zip"
             src_dir = outfile + "/."
-            command = f"{self._path_7z} a -tzip -mx=0 {dest_file} {src_dir}"
+            command = shlex.join(
+                [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
+            )
 
             # If we are to remove the file get the background job to do it immediately
             # after zipping succeeds
             if self.remove:
-                command += f" && rm -r {outfile}"
+                command += f" && rm -r {shlex.quote(outfile)}"
 
             bg_process = subprocess.Popen(
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
-- 
2.43.0


From 63b416caacc7e4631339b491bc8379bd9c6fec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:52 +0000
Subject: [PATCH 086/123] fix: the Save task could not be created, nor save
 containers

It has a next method but no process method, which ContainerTask requires, and
containers have no to_hdf5 method.
---
 caput/pipeline/tasklib/io.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 49bf7dc..93b01f4 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -583,11 +583,11 @@ class LoadFiles(LoadFilesFromParams):
         self.files = files
 
 
-class Save(ContainerTask):
+class Save(MPILoggedTask):
     """Save out the input, and pass it on.
 
-    Assumes that the input has a :py:meth:`to_hdf5` method. Appends a *tag* if there is
-    a `tag` entry in the attributes, otherwise just appends a count.
+    The input is a container or a memory group. Appends a *tag* if there is a `tag`
+    entry in the attributes, otherwise just appends a count.
 
     Attributes
     ----------
@@ -602,11 +602,9 @@ class Save(ContainerTask):
     def next(self, data):
         """Write out the data file.
 
-        Assumes it has a :py:class:`~caput.memdata.MemGroup` interface.
-
         Parameters
         ----------
-        data : MemGroup
+        data : MemGroup | MemDiskGroup
             Data to write out.
         """
         if "tag" not in data.attrs:
@@ -617,7 +615,10 @@ class Save(ContainerTask):
 
         fname = f"{self.root}_{tag!s}.h5"
 
-        data.to_hdf5(fname)
+        if isinstance(data, MemDiskGroup):
+            data.save(fname)
+        else:
+            data.to_hdf5(fname)
 
         return data
 
-- 
2.43.0


From c13061babe4aef9df8c739d7b92230205a1a387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:19 +0000
Subject: [PATCH 087/123] fix: HDF5 datasets could not be allocated by name

The low level interface of h5py takes names as bytes and dtype objects only.
---
 caput/util/mpitools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 715ba40..0fe6e30 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -883,7 +883,7 @@ def allocate_hdf5_dataset(
 
         # Create dataspace and HDF5 datatype
         sp = h5py.h5s.create_simple(shape, shape)
-        tp = h5py.h5t.py_create(dtype)
+        tp = h5py.h5t.py_create(np.dtype(dtype))
 
         # Create a new plist and tell it to allocate the space for dataset
         # immediately, but don't fill the file with zeros.
@@ -892,7 +892,8 @@ def allocate_hdf5_dataset(
         plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
 
         # Create the dataset
-        dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
+        name = dsetname.encode() if isinstance(dsetname, str) else dsetname
+        dset = h5py.h5d.create(f.id, name, tp, sp, plist)
 
         # Get the offset of the dataset into the file.
         state = dset.get_offset(), dset.get_storage_size()
-- 
2.43.0


From ae1907ca501c5030a03dc32148bbb222a98d2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:19 +0000
Subject: [PATCH 088/123] fix: parallel row writes failed for one dimensional
 arrays

The number of columns was then a floating point one.
---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 0fe6e30..dbfd3e3 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -958,7 +958,7 @@ def parallel_rows_write_hdf5(
 
     lr, sr, _ = split_local(shape[0], comm=comm)
 
-    nc = np.prod(shape[1:])
+    nc = int(np.prod(shape[1:], dtype=int))
 
     row_nbytes = nc * local_data.dtype.itemsize
 
-- 
2.43.0


From 30d940d0861b3064e91024a4ce847eff97b13f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:19 +0000
Subject: [PATCH 089/123] fix: transpose_blocks refused shapes given as lists
 on one process

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index dbfd3e3..aee2b1c 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -746,7 +746,7 @@ def transpose_blocks(
     """
     if comm is None or comm.size == 1:
         # only one process
-        if row_array.shape[:-1] == shape[:-1]:
+        if row_array.shape[:-1] == tuple(shape[:-1]):
             # We are working on a single node and being asked to do
             # a trivial transpose.
             # Note that to mimic the mpi behaviour we have to allow the
-- 
2.43.0


From 254d6df088360a2bb9e18eb5f8f3d5722b046e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:44 +0000
Subject: [PATCH 090/123] fix: cpu_count divided the cores by the number of
 nodes

The processes sharing the cores are those of the shared memory communicator.
---
 caput/util/mpitools.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index aee2b1c..3d2bfbc 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -164,16 +164,13 @@ def cpu_count(
         elif comm is not None:
             scomm = comm.Split_type(MPI.COMM_TYPE_SHARED)
 
-    try:
-        nproc_per_node = comm.size // scomm.size
-    except AttributeError:
-        # This would happend if the default comm is None
-        nproc_per_node = 1
+    # Without a communicator this is the only process
+    nproc_per_node = 1 if scomm is None else scomm.size
 
     cpu_count = os.cpu_count()
 
     if cpu_count is not None:
-        cpu_count = int(cpu_count // nproc_per_node)
+        cpu_count = max(int(cpu_count // nproc_per_node), 1)
 
     return cpu_count
 
-- 
2.43.0


From 164801a3b58c70e765aa294ee43ba45659251d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:34 +0000
Subject: [PATCH 091/123] fix: gather_local scrambled arrays of another memory
 layout or type

The sections were received as if the global array was in C order and of the type
of the local arrays, whatever it was.
---
 caput/util/mpitools.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 3d2bfbc..3934afd 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -624,6 +624,17 @@ def gather_local(
             nonempty_procs = [
                 i for i in range(comm.size) if np.prod(local_sizes[i]) > 0
             ]
+            # the messages carry elements of the local type in C order, so anything
+            # else needs an intermediate array
+            direct = (
+                global_array.flags.c_contiguous
+                and global_array.dtype == local_array.dtype
+            )
+            buffer = (
+                global_array
+                if direct
+                else np.empty(global_array.shape, dtype=local_array.dtype)
+            )
             # create newtype corresponding to the local array section in the global array
             sub_type = [
                 mpi_type.Create_subarray(
@@ -633,13 +644,20 @@ def gather_local(
             ]  # default order=ORDER_C
             # Post each receive
             reqs = [
-                comm.Irecv([global_array, sub_type[si]], source=sr, tag=0)
+                comm.Irecv([buffer, sub_type[si]], source=sr, tag=0)
                 for (si, sr) in enumerate(nonempty_procs)
             ]
 
             # Wait for requests to complete
             MPI.Prequest.Waitall(reqs)
 
+            if not direct:
+                for i in nonempty_procs:
+                    slc = tuple(
+                        slice(s, s + n) for s, n in zip(local_starts[i], local_sizes[i])
+                    )
+                    global_array[slc] = buffer[slc]
+
         # Wait on send request. Important, as can get weird synchronisation
         # bugs otherwise as processes exit before completing their send.
         if np.prod(local_size) > 0:
-- 
2.43.0


From 43c3d778c17b279563a156cf876f1c513e908583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:05 +0000
Subject: [PATCH 092/123] fix: available memory was unlimited in a cgroup
 without a memory limit

Such a cgroup reports a limit of 2**63 bytes, so that the checks for available
memory never failed.
---
 caput/util/mpitools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 3934afd..84fef91 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -301,7 +301,8 @@ def available_memory_shared() -> int:
     # Approximate memory used by the cgroup
     mem_used = int(mem_used)
 
-    return mem_limit - mem_used
+    # The limit can be larger than the memory of the machine, and is if there is none
+    return min(mem_limit - mem_used, psutil.virtual_memory().available)
 
 
 # Logging and Error Handling
-- 
2.43.0


From b74cf2855ad116676613c84c64f7985163371854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 093/123] fix: no PBS job script could be written

The script has a field `module`, where the modules are in `modules`.
---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 7c98664..66eedea 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -78,7 +78,7 @@ function setCrashed {{
 
 trap setCrashed ERR
 
-{module:s}
+{modules:s}
 
 source {venv:s}
 
-- 
2.43.0


From d4a5835468b5fc734d291c0050d88c9ac7f9060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 094/123] fix: required settings of PBS jobs were not checked

The script and the number of processes need ompnum and pernode.
---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 66eedea..250a3e6 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -58,7 +58,7 @@ options = "--mail-user={email} --mail-type={mailtype}"
 command = "qsub"
 invoke = "mpirun"
 invoke_args = "-np {mpiproc:d} -npernode {pernode:d} -bind-to none"
-required = ["name", "nodes", "time", "directory", "ppn", "queue"]
+required = ["name", "nodes", "time", "directory", "ppn", "queue", "ompnum", "pernode"]
 script = """#!/bin/bash
 #PBS -l nodes={nodes:d}:ppn={ppn:d}
 #PBS -q {queue:s}
-- 
2.43.0


From eb5cd2b07a8e0d86b5b3dbb4f92265eef3a3e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 095/123] fix: default arguments of the run command of a queue
 system were not used

PBS jobs therefore ran mpirun without the number of processes.
---
 caput/pipeline/runner/_scheduler/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 083f55e..e771890 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -434,9 +434,9 @@ def _resolve_job_script(conf: dict, directories: dict) -> str:
         conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")
 
     if "invoke_args" not in conf:
-        # Nothing here, but still need an empty string to
-        # satisfy the script template
-        conf["invoke_args"] = ""
+        # If there is nothing here, we still need an empty string
+        # to satisfy the script template
+        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
 
     # Path does not support type specifiers, so convert all `Path`
     # objects to strings
-- 
2.43.0


From e0076b880bb0f95fd4b9b7e3afd0915b8affbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 096/123] fix: an unknown queue system raised UnboundLocalError

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index e771890..bd659d7 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -305,7 +305,7 @@ def _resolve_system_config(conf: dict) -> dict:
             )
         else:
             raise ValueError(
-                f"Specified system `{system}`: is not known. "
+                f"Specified system `{sysname}`: is not known. "
                 f"Known systems are: {list(REGISTERED_SYSTEMS.keys())} "
                 f"and known clusters are: {list(REGISTERED_CLUSTERS.keys())}"
             )
-- 
2.43.0


From e684b963c493c56cfbaa854dac63017316ec6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 097/123] fix: the default profiler of queued jobs did not
 exist

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index bd659d7..ace4670 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -112,7 +112,7 @@ def queue(
     submit: bool = False,
     lint: bool = True,
     profile: bool = False,
-    profiler: str | None = "cProfiler",
+    profiler: str | None = "cProfile",
     psutil: bool = False,
     overwrite: Literal["never", "failed"] = "never",
     email: str | None = None,
-- 
2.43.0


From 1086b8bceb4391e2d2bdf26e6464fa7ffd3a6e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 098/123] fix: pipeline templates could not be run without
 submitting them

The other arguments of run_pipeline are not given, and had no defaults.
---
 caput/pipeline/runner/_core.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 88541d6..210f671 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -43,10 +43,10 @@ def lint_config(configfile: os.PathLike | tuple[os.PathLike, ...]) -> None:
 
 def run_pipeline(
     configfile: os.PathLike,
-    profile: bool,
-    profiler: Literal["cprofile", "pyinstrument"],
-    mpi_abort: bool,
-    psutil: bool,
+    profile: bool = False,
+    profiler: Literal["cprofile", "pyinstrument"] = "cprofile",
+    mpi_abort: bool = True,
+    psutil: bool = False,
 ) -> None:
     """Run a pipeline immediately from the given `configfile`.
 
@@ -55,15 +55,16 @@ def run_pipeline(
     configfile : os.PathLike
         Path to a pipeline config file.
     profile : bool
-        Whether to enable profiling.
+        Whether to enable profiling. Default is False.
     profiler : {"cprofile", "pyinstrument"}
-        Which profiler to use (cprofile or pyinstrument).
+        Which profiler to use (cprofile or pyinstrument). Default is cprofile.
     mpi_abort : bool
         Whether to enable MPI-aware exception handling. If True, any uncaught
         exceptions will cause an MPI_Abort to be called, terminating all
-        processes in the MPI job.
+        processes in the MPI job. Default is True.
     psutil : bool
         Whether to enable psutil-based memory profiling inside the pipeline manager.
+        Default is False.
     """
     from ...util import profiler as prfl
     from .._pipeline import Manager
-- 
2.43.0


From ebab973cf13108c095d4a19f982a9043e898826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 099/123] fix: virtual environments were not found for Python
 3.10 and later

The first three characters of the version are not its major and minor number.
---
 caput/pipeline/runner/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 210f671..48a666c 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -183,12 +183,12 @@ def _load_venv(configfile: os.PathLike) -> None:
         logger.warning(f"Path defined in 'cluster'/'venv' doesn't exist ({base})")
         sys.exit(1)
 
-    site_packages = base / "lib" / f"python{sys.version[:3]}" / "site-packages"
+    site_packages = base / "lib" / f"python{sys.version_info.major}.{sys.version_info.minor}" / "site-packages"
     prev_sys_path = list(sys.path)
 
     site.addsitedir(site_packages)
     sys.real_prefix = sys.prefix
-    sys.prefix = base
+    sys.prefix = str(base)
 
     # Move the added items to the front of the path:
     new_sys_path = []
-- 
2.43.0


From 8ff63dc4810500d727e8d2e5792d27262a405945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:30 +0000
Subject: [PATCH 100/123] fix: the queue command had a default profiler that
 does not exist

---
 caput/pipeline/runner/_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_cli.py b/caput/pipeline/runner/_cli.py
index ecaeabe..30701a7 100644
--- a/caput/pipeline/runner/_cli.py
+++ b/caput/pipeline/runner/_cli.py
@@ -193,7 +193,7 @@ def queue(
     submit=False,
     lint=True,
     profile=False,
-    profiler="cProfiler",
+    profiler="cProfile",
     psutil=False,
     overwrite="never",
     email=None,
-- 
2.43.0


From e8ecd4690120509eb8a1ea967bc5c8ce54152a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:30 +0000
Subject: [PATCH 101/123] fix: profiling options were ignored for PBS jobs

---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 250a3e6..1a47480 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -85,7 +85,7 @@ source {venv:s}
 cd {workdir:s}
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
 
 # Set the status
 echo FINISHED > {statuspath:s}
-- 
2.43.0


From ab50deeabb716347b3119aa3f2685cb856d97d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:30 +0000
Subject: [PATCH 102/123] fix: PBS jobs kept the status of an earlier run

A job that was killed would then still count as finished.
---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 1a47480..613dc30 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -78,6 +78,8 @@ function setCrashed {{
 
 trap setCrashed ERR
 
+echo RUNNING > {statuspath:s}
+
 {modules:s}
 
 source {venv:s}
-- 
2.43.0


From b997f58a71e794f7f408e37f7f79160966bf5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:30 +0000
Subject: [PATCH 103/123] fix: job scripts failed for paths with spaces

---
 .../runner/_scheduler/_default_systems.toml   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 613dc30..dab4d7c 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -17,18 +17,18 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 
 # Try to keep threads together - this is usually more optimal
@@ -36,15 +36,15 @@ export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 export OMP_PROC_BIND=close
 export OMP_PLACES=cores
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
@@ -73,29 +73,29 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
-- 
2.43.0


From bb821dff4353baad536d183f14a92116dc557b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 104/123] fix: jobs that could not be set up were skipped when
 queued again

The job directory was created before the virtual environment, the script and the
mail options were looked at. If any of them was refused, queueing the corrected
job did nothing, as its directory existed.
---
 caput/pipeline/runner/_scheduler/__init__.py | 39 +++++++++++---------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index ace4670..8c7581c 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -219,19 +219,12 @@ def queue(
     system = resolved_config["system"]
     system_config = REGISTERED_SYSTEMS[system]
 
-    directories = _create_job_directories(resolved_config, overwrite)
+    directories = _find_job_directories(resolved_config, overwrite)
 
     if not directories:
         # The job already exists and we are not overwriting
         return
 
-    # Copy the config file to the job directory
-    sfile = _fix_path(configfile)
-    dfile = _fix_path(directories["jobdir"] / "config.yaml")
-
-    if sfile != dfile:
-        shutil.copyfile(sfile, dfile)
-
     # Forward profiler configuration
     resolved_config["profile"] = "--profile" if profile else ""
     resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
@@ -240,10 +233,6 @@ def queue(
     # Resolve the cluster job script based on the configuration
     jobscript = _resolve_job_script(resolved_config, directories)
 
-    # Write the job script to the job directory
-    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
-        f.write(jobscript)
-
     # Resolve mail options, if available for the queue system
     extra_options = []
 
@@ -266,6 +255,21 @@ def queue(
                 mail_config["options"].format(email=email, mailtype=mailtype).split()
             )
 
+    # Only create the job now that nothing can be refused any more, as an existing
+    # job directory makes later attempts skip the job
+    directories["jobdir"].mkdir(parents=True, exist_ok=True)
+
+    # Copy the config file to the job directory
+    sfile = _fix_path(configfile)
+    dfile = _fix_path(directories["jobdir"] / "config.yaml")
+
+    if sfile != dfile:
+        shutil.copyfile(sfile, dfile)
+
+    # Write the job script to the job directory
+    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
+        f.write(jobscript)
+
     if submit:
         # NOTE: explicitly set the environment to what Python thinks it should
         # be. This is because mpi4py will incorrectly modify the environment
@@ -324,8 +328,11 @@ def _resolve_system_config(conf: dict) -> dict:
     return cluster_conf
 
 
-def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
-    """Create job directories based on a configuration dictionary."""
+def _find_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
+    """Find the job directories based on a configuration dictionary.
+
+    Returns ``None`` if the job exists and must not be overwritten.
+    """
     directories = {}
 
     # If no temporary directory set, just use the final directory
@@ -344,7 +351,7 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
     if not finaldir.is_absolute():
         raise ValueError(f"Final output directory path {finaldir} must be absolute")
 
-    # Create temporary directory if required
+    # Check if the job already exists
     jobdir = workdir / "job/"
     statusfile = jobdir / "STATUS"
 
@@ -361,8 +368,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                         f"Successful job already exists at {workdir}. Skipping."
                     )
                     return None
-    else:
-        jobdir.mkdir(parents=True)
 
     directories["jobdir"] = jobdir
     directories["workdir"] = workdir
-- 
2.43.0


From ff984307736fbb0ac9deac56530023611b2eec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 105/123] fix: finished jobs with a temporary directory were
 queued again

Only the temporary directory was searched for an existing job, but a successful
job moves it to the final directory.
---
 caput/pipeline/runner/_scheduler/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 8c7581c..aeb1f85 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -351,25 +351,26 @@ def _find_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
     if not finaldir.is_absolute():
         raise ValueError(f"Final output directory path {finaldir} must be absolute")
 
-    # Check if the job already exists
-    jobdir = workdir / "job/"
-    statusfile = jobdir / "STATUS"
+    # Check if the job already exists, in the working directory or already
+    # moved to the final one
+    for path in (workdir, finaldir):
+        statusfile = path / "job" / "STATUS"
+
+        if not statusfile.parent.exists():
+            continue
 
-    if jobdir.exists():
         if overwrite == "never":
-            logger.info(f"Job already exists at {workdir}. Skipping.")
+            logger.info(f"Job already exists at {path}. Skipping.")
             return None
 
         if overwrite == "failed" and statusfile.exists():
             with open(statusfile) as fh:
                 contents = fh.read()
                 if "FINISHED" in contents:
-                    logger.info(
-                        f"Successful job already exists at {workdir}. Skipping."
-                    )
+                    logger.info(f"Successful job already exists at {path}. Skipping.")
                     return None
 
-    directories["jobdir"] = jobdir
+    directories["jobdir"] = workdir / "job"
     directories["workdir"] = workdir
     directories["finaldir"] = finaldir
 
-- 
2.43.0


From 5c1227991006295acff5a0a35524e0d05f7987e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 106/123] fix: failures to submit a job were ignored

---
 caput/pipeline/runner/_scheduler/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index aeb1f85..0c500db 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -278,6 +278,7 @@ def queue(
             [system_config["command"], *extra_options, "jobscript.sh"],
             cwd=directories["jobdir"],
             env=os.environ,
+            check=True,
         )
 
 
-- 
2.43.0


From ea31df47f0a719f17bcfeb6f4711da5a228c4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:09 +0000
Subject: [PATCH 107/123] fix: looking for strings in a compound type failed
 for some nested types

---
 caput/util/typeutils.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 90e0984..9ec5296 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -211,26 +211,14 @@ def has_kind(dt: npt.DTypeLike, kind: npt._DTypeKind) -> bool:
     dtype_has_kind : bool
         True if it contains the requested kind.
     """
-    # For scalar types the conversion is easy
-    if not dt.names:
-        return dt.kind == kind
-
-    # For compound types we must recurse over the full compound type structure
-    def _iter_conv(x):
-        for item in x:
-            type_ = item[1]
+    if dt.subdtype:
+        return has_kind(dt.subdtype[0], kind)
 
-            # Recursively convert the type
-            if isinstance(type_, list) and _iter_conv(type_):
-                return True
-            if isinstance(type_, tuple) and type_[0][1] == kind:
-                return True
-            if type_[1] == kind:
-                return True
-
-        return False
+    # For compound types we must recurse over the fields
+    if dt.names:
+        return any(has_kind(dt[name], kind) for name in dt.names)
 
-    return _iter_conv(dt.descr)
+    return dt.kind == kind
 
 
 def has_unicode(dt: npt.DTypeLike) -> bool:
-- 
2.43.0


From 322c165cad749025e776977e34f4c9a6f44b1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:09 +0000
Subject: [PATCH 108/123] fix: string dtype conversion failed for aligned types
 and other byte orders

---
 caput/util/typeutils.py | 44 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 9ec5296..f754c61 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -124,34 +124,32 @@ def _convert_dtype(
         A new datatype with the converted string types.
     """
 
-    def _conv(t):
-        # If we get a tuple that should mean it's a type with some extended metadata, extract the
-        # type and throw away the metadata
-        if isinstance(t, tuple):
-            t = t[0]
-        return t.replace(type_from, type_to)
-
-    # For compound types we must recurse over the full compound type structure
-    def _iter_conv(x):
-        items = []
+    # An array inside of a compound type
+    if dt.subdtype:
+        base, shape = dt.subdtype
+        return np.dtype((_convert_dtype(base, type_from, type_to), shape))
 
-        for item in x:
-            name = item[0]
-            type_ = item[1]
+    # For compound types we must recurse over the fields
+    if dt.names:
+        items = []
 
-            # Recursively convert the type
-            newtype = _iter_conv(type_) if isinstance(type_, list) else _conv(type_)
+        for name in dt.names:
+            field, _, *title = dt.fields[name]
+            items.append(
+                (
+                    (title[0], name) if title else name,
+                    _convert_dtype(field, type_from, type_to),
+                )
+            )
 
-            # Any extra item is the shape of a subarray field
-            items.append((name, newtype, *item[2:]))
+        return np.dtype(items)
 
-        return items
+    # For scalar types the conversion is easy. Strings may be of any byte order.
+    code = dt.str
+    if dt.kind == type_from[1]:
+        code = type_to + code[2:]
 
-    # For scalar types the conversion is easy
-    if not dt.names:
-        return np.dtype(_conv(dt.str))
-    # For compound types we need to iterate through
-    return np.dtype(_iter_conv(dt.descr))
+    return np.dtype(code)
 
 
 def check_byteorder(arr_byteorder: np._ByteOrderChar) -> bool:
-- 
2.43.0


From 382d0305dace70a9f7770b2fcf271fb3674623f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 109/123] fix: allequal found scalars equal to any empty or
 uniform array

---
 caput/util/objecttools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/util/objecttools.py b/caput/util/objecttools.py
index 33b9483..89d0552 100644
--- a/caput/util/objecttools.py
+++ b/caput/util/objecttools.py
@@ -96,6 +96,10 @@ def _assert_equal(obj1: Any, obj2: Any) -> None:
         obj1 = obj1.view(np.ndarray)
         obj2 = obj2.view(np.ndarray)
 
+    # Scalars would be broadcast against arrays, even empty ones
+    if isinstance(obj1, np.ndarray) or isinstance(obj2, np.ndarray):
+        assert np.shape(obj1) == np.shape(obj2)
+
     # Check all other built-in types and numpy types are equal
     np.testing.assert_equal(obj1, obj2)
 
-- 
2.43.0


From 42698352d54cb993d9000dd31d61bdd07e789558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 110/123] fix: allequal raised for types that can not be
 compared

---
 caput/util/objecttools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/objecttools.py b/caput/util/objecttools.py
index 89d0552..e432e01 100644
--- a/caput/util/objecttools.py
+++ b/caput/util/objecttools.py
@@ -38,7 +38,8 @@ def allequal(obj1: Any, obj2: Any) -> bool:
     """
     try:
         _assert_equal(obj1, obj2)
-    except AssertionError:
+    except (AssertionError, NotImplementedError, TypeError, ValueError):
+        # Either different, or of types that can't be compared
         return False
     return True
 
-- 
2.43.0


From 6836e06f560c1e4b90a1657ccff8a4aff873c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 111/123] fix: total_size ignored all contents next to a module

---
 caput/util/objecttools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/caput/util/objecttools.py b/caput/util/objecttools.py
index e432e01..35911d5 100644
--- a/caput/util/objecttools.py
+++ b/caput/util/objecttools.py
@@ -131,13 +131,14 @@ def total_size(obj: Any) -> int:
         except TypeError:
             return 0
 
+    if isinstance(obj, ModuleType):
+        raise TypeError(
+            f"function `total_size` is not implemented for type {ModuleType}"
+        )
+
     def sizeof(x):
-        if isinstance(x, ModuleType):
-            raise TypeError(
-                f"function `total_size` is not implemented for type {ModuleType}"
-            )
-        # Don't check the same item twice
-        if id(x) in seen:
+        # Modules don't belong to the object. Don't check the same item twice
+        if isinstance(x, ModuleType) or id(x) in seen:
             return 0
 
         seen.add(id(x))
-- 
2.43.0


From f92ded8b1ec4e14bcd21bf58fb2bee0e8caa306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 112/123] fix: Profiler ignored the path for its output

---
 caput/util/profiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index c87e70c..1e46faf 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -92,11 +92,11 @@ class Profiler:
 
         if self.profiler == "cprofile":
             self._pr.disable()
-            self._pr.dump_stats(f"profile_{rank:0{rank_length}}.prof")
+            self._pr.dump_stats(self.path / f"profile_{rank:0{rank_length}}.prof")
 
         elif self.profiler == "pyinstrument":
             self._pr.stop()
-            with open(f"profile_{rank:0{rank_length}}.txt", "w") as fh:
+            with open(self.path / f"profile_{rank:0{rank_length}}.txt", "w") as fh:
                 fh.write(self._pr.output_text(unicode=True))
 
 
-- 
2.43.0


From 85ca27a8cf7739e827a0872afce40c932c9c8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 113/123] fix: PSUtilProfiler failed for any path

---
 caput/util/profiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index 1e46faf..3dd81d6 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -235,11 +235,11 @@ class PSUtilProfiler(psutil.Process):
         if path is None:
             self.path = Path.cwd()
         else:
-            if not self.path.is_dir() or not self.path.exists():
+            self.path = Path(path)
+            if not self.path.is_dir():
                 raise ValueError(
                     f"Make sure {self.path} passed to PSUtillProfiler is a directory that exists."
                 )
-            self.path = Path(path)
 
         self.path = self.path / f"perf_{rank}.csv"
 
-- 
2.43.0


From d2f8cc3b8a8579b40234f5747f2d5565cd0d96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 114/123] fix: channel profiles of a PFB kept the normalisation
 of the first call

---
 caput/util/pfb.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/caput/util/pfb.py b/caput/util/pfb.py
index 49d4023..ef92bc3 100644
--- a/caput/util/pfb.py
+++ b/caput/util/pfb.py
@@ -112,7 +112,7 @@ class PFB:
         self.window = sinc_hamming if window is None else window
         self.oversample = oversample
 
-        self._profile_interp = None
+        self._profile_interp = {}
 
     def apply(self, timestream: npt.NDArray) -> np.ndarray[np.complex128]:
         """Apply the PFB to a timestream.
@@ -223,11 +223,13 @@ class PFB:
         profile : array_like
             The channel profile.
         """
-        if self._profile_interp is None:
+        norm = bool(norm)
+
+        if norm not in self._profile_interp:
             rel_freq, w = self.compute_channel_profile(norm=norm)
-            self._profile_interp = CubicSpline(rel_freq, w, extrapolate=False)
+            self._profile_interp[norm] = CubicSpline(rel_freq, w, extrapolate=False)
 
-        return self._profile_interp(channel_width_frac)
+        return self._profile_interp[norm](channel_width_frac)
 
     _decorr_interp = None
 
-- 
2.43.0


From 390a0bce7df195155ea3cfbb664d7d0180025381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:24 +0000
Subject: [PATCH 115/123] fix: PSUtilProfiler counted the end of its own thread
 as running time

---
 caput/util/profiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index 3dd81d6..a633aa8 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -340,12 +340,12 @@ class PSUtilProfiler(psutil.Process):
         if self._start_cpu_times is None:
             raise RuntimeError("PSUtilProfiler.stop was called before start.")
 
+        stop_time = time.time()
+
         # Stop the monitoring process
         self._thread_flag.clear()
         self._monitor_thread.join()
 
-        stop_time = time.time()
-
         # Get all stats at the same time
         with self.oneshot():
             cpu_times = self.cpu_times()
-- 
2.43.0


From 1f7ee5d4ed082fd9d88917c0e9be19179269b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:22 +0000
Subject: [PATCH 116/123] fix: a failed MPI test ended the job as if it had
 succeeded

---
 caput/pipeline/tasklib/debug.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/debug.py b/caput/pipeline/tasklib/debug.py
index 7f191de..cdf8cf9 100644
--- a/caput/pipeline/tasklib/debug.py
+++ b/caput/pipeline/tasklib/debug.py
@@ -58,11 +58,11 @@ class CheckMPIEnvironment(MPILoggedTask):
             self.log.critical(
                 f"MPI test failed to respond in {self.timeout} seconds. Aborting..."
             )
-            comm.Abort()
+            comm.Abort(1)
 
         if not (recvs == sends).all():
             self.log.critical("MPI test did not receive the correct data. Aborting...")
-            comm.Abort()
+            comm.Abort(1)
 
         # Stop successful processes from finshing if any task has failed
         comm.Barrier()
-- 
2.43.0


From 6cbf76d64796b8ec2118daffb2d0a72e0794d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:14 +0000
Subject: [PATCH 117/123] fix: data in a file opened read only could not be
 saved to another file

---
 caput/memdata/_memh5.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 7d94f4f..4507972 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2240,12 +2240,8 @@ class MemDiskGroup(_BaseGroup):
         if convert_dataset_strings is None:
             convert_dataset_strings = getattr(self, "convert_dataset_strings", False)
 
-        # Write out a hint as to what the class of this object is, do this by
-        # inserting it into the attributes before saving out.
-        if "__memh5_subclass" not in self.attrs:
-            clspath = self.__class__.__module__ + "." + self.__class__.__name__
-
-            self.attrs["__memh5_subclass"] = clspath
+        # Write out a hint as to what the class of this object is
+        clspath = self.__class__.__module__ + "." + self.__class__.__name__
 
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
@@ -2259,7 +2255,14 @@ class MemDiskGroup(_BaseGroup):
                     convert_dataset_strings=convert_dataset_strings,
                     file_format=file_format,
                 )
+                # The file this data lives in might not be writable, so only insert
+                # the hint into the new one
+                f.attrs.setdefault("__memh5_subclass", clspath)
         else:
+            # Insert the hint into the attributes before saving out
+            if "__memh5_subclass" not in self.attrs:
+                self.attrs["__memh5_subclass"] = clspath
+
             self._data.to_file(
                 filename,
                 convert_attribute_strings=convert_attribute_strings,
-- 
2.43.0


From 3180ed8d6e4dc379d691ae403d6289bf5ffc3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:17 +0000
Subject: [PATCH 118/123] fix: the weighted median of large integers overflowed

---
 caput/algorithms/median/weighted.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index c09c027..5f3f587 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -114,7 +114,11 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
             elif method == "h":
                 return A[j]
             else:  # method == "s":
-                return <data_t>((A[i] + A[j]) / 2)
+                # The sum of two large integers might overflow
+                if data_t is int or data_t is long:
+                    return (A[i] & A[j]) + ((A[i] ^ A[j]) >> 1)
+                else:
+                    return <data_t>((A[i] + A[j]) / 2)
 
         # Otherwise the target element is in the left partition...
         elif qs <= weights_left:
-- 
2.43.0


From 9dc9fb805ae877fe9458e78d9f92cae2121f2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:17 +0000
Subject: [PATCH 119/123] fix: map selections replaced index selections of the
 same axis

---
 caput/pipeline/tasklib/io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 93b01f4..0ff77a6 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -258,9 +258,15 @@ class SelectionsMixin:
         if not self.allow_index_map:
             del sel_parsers["map"]
 
-        # To enforce the precedence of range vs index selections, we rely on the fact
-        # that a sort will place the axis_range keys after axis_index keys
-        for k in sorted(self.selections or []):
+        # To enforce the precedence of range, index and map selections, go through them
+        # in the reverse of that order such that the later ones replace the earlier
+        precedence = list(sel_parsers)[::-1]
+
+        def _order(key):
+            type_ = key.split("_")[-1]
+            return precedence.index(type_) if type_ in precedence else -1
+
+        for k in sorted(self.selections or [], key=_order):
             # Parse the key to get the axis name and type, accounting for the fact the
             # axis name may contain an underscore
             *axis, type_ = k.split("_")
-- 
2.43.0


From bfeb75b7ce548df4cacd7ffde2e6b4e53e598de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:31 +0000
Subject: [PATCH 120/123] fix: a single slice could not select from datasets
 loaded as distributed

---
 caput/mpiarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index f65a5c8..5c3e72f 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2276,6 +2276,9 @@ def _expand_sel(sel: SelectionLike | None, naxis: int) -> list[slice | int]:
     """Expand the selection to the full dimensions."""
     if sel is None:
         sel = [slice(None)] * naxis
+    elif isinstance(sel, slice):
+        # A single slice selects along the first axis
+        sel = [sel]
     if len(sel) < naxis:
         sel = list(sel) + [slice(None)] * (naxis - len(sel))
     return list(sel)
-- 
2.43.0


From 87359fa6a3187eb0f89ba262530c2f466d686621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 121/123] fix: environments given with variables were not found
 when linting

`cluster/venv` may contain environment variables or `~`, which are expanded
when a job is queued. Linting the same file, which `queue` does first, took
the path literally and exited.
---
 caput/pipeline/runner/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 48a666c..c468353 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -164,6 +164,7 @@ def _load_template(templatefile: os.PathLike) -> str:
 
 def _load_venv(configfile: os.PathLike) -> None:
     """Load the venv specified under cluster/venv in the given configfile."""
+    import os
     import site
     from pathlib import Path
 
@@ -177,7 +178,7 @@ def _load_venv(configfile: os.PathLike) -> None:
 
     logger.info(f"Activating '{venv_path}'...")
 
-    base = Path(venv_path).resolve()
+    base = Path(os.path.expandvars(venv_path)).expanduser().resolve()
 
     if not base.exists():
         logger.warning(f"Path defined in 'cluster'/'venv' doesn't exist ({base})")
-- 
2.43.0


From e9aa557815a8099868e46c821159a4e7db69032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:21 +0000
Subject: [PATCH 122/123] fix: chunks and compression were ignored when writing
 HDF5 files without MPI

---
 caput/mpiarray.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 5c3e72f..812666e 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1144,7 +1144,9 @@ class MPIArray(np.ndarray):
 
         if not h5py.get_config().mpi:
             if isinstance(f, str):
-                self._to_hdf5_serial(f, dataset, create)
+                self._to_hdf5_serial(
+                    f, dataset, create, chunks, compression, compression_opts
+                )
                 return
 
             raise ValueError(
@@ -1684,7 +1686,13 @@ class MPIArray(np.ndarray):
         )
 
     def _to_hdf5_serial(
-        self, filename: str, dataset: str, create: bool = False
+        self,
+        filename: str,
+        dataset: str,
+        create: bool = False,
+        chunks: tuple[int, ...] | None = None,
+        compression: str | int | None = None,
+        compression_opts: tuple | None = None,
     ) -> None:
         """Write into an HDF5 dataset.
 
@@ -1704,12 +1712,19 @@ class MPIArray(np.ndarray):
         create : bool, optional
             True if a new file should be created (if needed).
             Default is False.
+        chunks, compression, compression_opts : optional
+            Chunk shape and compression of the dataset, if it doesn't exist.
         """
         import os
         import time
 
         from .memdata._io import open_h5py_mpi
 
+        extra_args = fileformats.HDF5.compression_kwargs(
+            compression=compression,
+            compression_opts=compression_opts,
+        )
+
         if self.comm is None or self.comm.rank == 0:
             with open_h5py_mpi(filename, "a" if create else "r+", use_mpi=False) as fh:
                 dset = _create_or_get_dset(
@@ -1717,6 +1732,8 @@ class MPIArray(np.ndarray):
                     dataset,
                     self.global_shape,
                     dtype=self.dtype,
+                    chunks=chunks,
+                    **extra_args,
                 )
                 dset[:] = np.array(0.0).astype(self.dtype)
 
-- 
2.43.0


From 007676b473184cfc736cf676470c94cdda92bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:21 +0000
Subject: [PATCH 123/123] fix: derivatives of the spherical Bessel functions
 failed at zero and for lists

---
 caput/astro/coordinates/bessel.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/caput/astro/coordinates/bessel.py b/caput/astro/coordinates/bessel.py
index 2a97291..04d9e22 100644
--- a/caput/astro/coordinates/bessel.py
+++ b/caput/astro/coordinates/bessel.py
@@ -68,10 +68,13 @@ def jl_d(l, z):
     jl_d : array_like
         Derivate of spherical bessel functions.
     """
-    jl0 = jl(l, z)
-    jl1 = jl(l + 1, z)
+    l, z = np.asarray(l)[()], np.asarray(z)[()]
 
-    return -jl1 + (l / z) * jl0
+    # Don't divide by the argument, which may be zero. The first term vanishes for l = 0
+    jlm = jl(np.maximum(l, 1) - 1, z)
+    jlp = jl(l + 1, z)
+
+    return (l * jlm - (l + 1) * jlp) / (2 * l + 1)
 
 
 def jl_d2(l, z):
@@ -87,11 +90,12 @@ def jl_d2(l, z):
     jl_d2 : array_like
         Second derivate of spherical bessel functions.
     """
-    jl0 = jl(l, z)
-    jl1 = jl(l + 1, z)
-    jl2 = jl(l + 2, z)
+    l, z = np.asarray(l)[()], np.asarray(z)[()]
+
+    jlm = jl_d(np.maximum(l, 1) - 1, z)
+    jlp = jl_d(l + 1, z)
 
-    return jl2 - ((2 * l + 1) / z) * jl1 + ((l**2 - l) / z**2) * jl0
+    return (l * jlm - (l + 1) * jlp) / (2 * l + 1)
 
 
 def _jl_approx_lowz(l, z):
-- 
2.43.0

