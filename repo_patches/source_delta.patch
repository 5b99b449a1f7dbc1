From 4177e984ab7b9a9d15fc232c1b1cf51616e4a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 01/46] fix: reset the ring position when Xorshift1024 is
 re-seeded

---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From 6367a71acc78fb41fca1b04ebf0d7cb5a2a29d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 02/46] fix: discard the buffered words when HC128 is re-seeded

---
 randomgen/src/hc-128/hc-128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/src/hc-128/hc-128.c b/randomgen/src/hc-128/hc-128.c
index 88b2ad4..707cc93 100644
--- a/randomgen/src/hc-128/hc-128.c
+++ b/randomgen/src/hc-128/hc-128.c
@@ -46,6 +46,7 @@ void hc128_init(hc128_state_t *state, const uint8_t *key, const uint8_t *iv)
         q[i] = round_expression_qp(q, p, i);
 
     state->hc_idx = 0;
+    state->buffer_idx = 0;
 }
 
 void hc128_seed(hc128_state_t *state, uint32_t *seed)
-- 
2.43.0


From cbf6e79f03dc8fe9866246ed9331bfb27eab7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 03/46] fix: restore the stored 32-bit value when the Squares
 state is set

---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..a89014c 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -546,6 +546,8 @@ cdef class Squares(BitGenerator):
             raise ValueError("variant must be either 64 or 32.")
         self.variant = variant
         self._use64 = variant == 64
+        self.rng_state.has_uint32 = value["has_uint32"]
+        self.rng_state.uinteger = value["uinteger"]
         self._setup_bitgen()
 
     def advance(self, uint64_t delta):
-- 
2.43.0


From 2babdddce01290cc78aefc0c4319acee84a0dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 04/46] fix: draw prod(size) values in random_raw when output
 is False

---
 randomgen/common.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4aa1af1..98fe6de 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -234,7 +234,7 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
             with lock:
                 bitgen.next_raw(bitgen.state)
             return None
-        n = np.asarray(size).sum()
+        n = np.prod(size, dtype=np.intp)
         with lock, nogil:
             for i in range(n):
                 bitgen.next_raw(bitgen.state)
-- 
2.43.0


From 4022709dc9feaf5d4d03116a36fb672e46afcb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 05/46] fix: advance of Philox and ThreeFry with number=2 from
 an empty buffer

---
 randomgen/src/philox/philox.c     | 1 +
 randomgen/src/threefry/threefry.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index e98d72e..b2d6963 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -8,6 +8,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
   int i, next_buffer_pos;                                                                 \
   uint##W##_t last, carry, rem, adj_step;                                                 \
   philox##N##x##W##_ctr_t ct;                                                             \
+  if (state->buffer_pos > N) state->buffer_pos = N; /* empty buffer */                    \
   rem = step[0] % N;                                                                      \
   next_buffer_pos = state->buffer_pos + rem;                                              \
   carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 53a788e..c812fed 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -8,6 +8,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
   int i, next_buffer_pos;                                                                   \
   uint##W##_t last, carry, rem, adj_step;                                                   \
   threefry##N##x##W##_ctr_t ct;                                                             \
+  if (state->buffer_pos > N) state->buffer_pos = N; /* empty buffer */                      \
   rem = step[0] % N;                                                                        \
   next_buffer_pos = state->buffer_pos + rem;                                                \
   carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
-- 
2.43.0


From be2e9fe9f28726a89605e8d4167220e52a03396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 06/46] fix: use the topmost bits of the step in Philox and
 ThreeFry advance

---
 randomgen/src/philox/philox.c     | 4 +---
 randomgen/src/threefry/threefry.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index b2d6963..8e90fb9 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -18,9 +18,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
       adj_step = step[i] / N;                                                             \
       /* Add in the lower bits from the next step size */                                 \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                      \
-      if (i < (N - 1)){                                                                   \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                   \
-      }                                                                                   \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
       last = state->state.state##N##x##W.ctr.v[i];                                        \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                           \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                             \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index c812fed..b4d8bad 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -18,9 +18,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
       adj_step = step[i] / N;                                                               \
       /* Add in the lower bits from the next step size */                                   \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                        \
-      if (i < (N - 1)){                                                                     \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
-      }                                                                                     \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                       \
       last = state->state.state##N##x##W.ctr.v[i];                                          \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                             \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                               \
-- 
2.43.0


From 3ba54f850aa26fede6365db5e8c3bba0d724cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 07/46] fix: honour counter when Philox is seeded with
 numpy_seed=True

---
 randomgen/philox.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c70d584..a31336f 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -242,7 +242,7 @@ cdef class Philox(BitGenerator):
     def _seed_from_seq_numpy_compat(self, counter=None):
         if self.n != 4 or self.w != 64:
             raise ValueError("n must be 4 and w must br 64 when using mode='numpy'")
-        return self._seed_from_seq()
+        return self._seed_from_seq(counter=counter)
 
     def seed(self, seed=None, counter=None, key=None):
         """
-- 
2.43.0


From bc0813f51067bbe926d053cec3254a595563cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 08/46] fix: restore the complete LCG128Mix configuration when
 the state is set

---
 randomgen/pcg64.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..aabc5b0 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -850,8 +850,14 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.uinteger = uinteger
         self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
         self.rng_state.pcg_state.post = value["state"]["post"]
+        # The configuration is also used when re-seeding and by repr
+        self.multiplier = multiplier
+        self.dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        self.post = value["state"]["post"]
         output_func = value["state"]["output_func"]
         if isinstance(output_func, str):
+            self._cfunc = None
+            self.output_function = self._output_lookup[output_func]
             self.rng_state.pcg_state.output_idx = self._output_lookup[output_func]
         elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
             import ctypes
-- 
2.43.0


From 0668b83ecd1d93035c3564e31b671fa8b9b2a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 09/46] fix: make state arrays contiguous before reading their
 data

---
 randomgen/common.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 98fe6de..4ef2f37 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -405,7 +405,8 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
         raise ValueError("State element {0} must be a 1-d array with dtype {1} "
                          "and {2} elements".format(name, req_dtype,
                                                    required_len))
-    return arr
+    # Callers access the data directly
+    return np.ascontiguousarray(arr)
 
 
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
-- 
2.43.0


From 40ceffc4adae7e594f1b4a90f0923a360fa2dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:53 +0000
Subject: [PATCH 10/46] fix: keep the bit generator's configuration when
 pickling ExtendedGenerator

---
 randomgen/_pickle.py    | 10 ++++++----
 randomgen/generator.pyx |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/randomgen/_pickle.py b/randomgen/_pickle.py
index 6bd5ed6..6015d6e 100644
--- a/randomgen/_pickle.py
+++ b/randomgen/_pickle.py
@@ -84,21 +84,23 @@ def _decode(name: str | bytes) -> str:
 
 
 def __extended_generator_ctor(
-    bit_generator_name: str | bytes = "MT19937",
+    bit_generator_name: str | bytes | BitGenerator = "MT19937",
 ) -> ExtendedGenerator:
     """
     Pickling helper function that returns a Generator object
 
     Parameters
     ----------
-    bit_generator_name: str
-        String containing the core BitGenerator
+    bit_generator_name: {str, BitGenerator}
+        The core BitGenerator or a string containing its name
 
     Returns
     -------
     rg: Generator
-        Generator using the named core BitGenerator
+        Generator using the core BitGenerator
     """
+    if not isinstance(bit_generator_name, (str, bytes)):
+        return ExtendedGenerator(bit_generator_name)
     bit_generator_name = _decode(bit_generator_name)
     assert isinstance(bit_generator_name, str)
     bit_generator = _get_bitgenerator(bit_generator_name)
diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..38bc584 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -194,9 +194,11 @@ cdef class ExtendedGenerator:
         self.bit_generator.state = state
 
     def __reduce__(self):
+        import copy
+
         from randomgen._pickle import __extended_generator_ctor
-        return (__extended_generator_ctor, (self.bit_generator.state["bit_generator"],),
-                self.bit_generator.state)
+        # Copy so that copy.copy also produces an independent generator
+        return __extended_generator_ctor, (copy.copy(self.bit_generator),)
 
     @property
     def bit_generator(self):
-- 
2.43.0


From 5a2ae077786851e5c76faa3133ff59f4d14ff11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 11/46] fix: honour size exactly in multivariate_normal

size=1, (1,), (1, n) lost their leading dimension, and size=(0,) returned one draw.
---
 randomgen/generator.pyx | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 38bc584..4ec7894 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -514,12 +514,6 @@ cdef class ExtendedGenerator:
                 f"the final dimension of mean ({n}). mean must be 1 dimensional"
             )
 
-        drop_dims = (mean.ndim == 1) and (cov.ndim == 2)
-        if mean.ndim == 1:
-            mean = mean.reshape((1, n))
-        if cov.ndim == 2:
-            cov = cov.reshape((1, n, n))
-
         _factors = np.empty_like(cov)
         for loc in np.ndindex(*cov.shape[:len(cov.shape)-2]):
             _factors[loc] = _factorize(cov[loc], method, check_valid, tol, n)
@@ -528,10 +522,10 @@ cdef class ExtendedGenerator:
         if size is not None:
             if isinstance(size, (int, np.integer)):
                 size = (size,)
-            error = len(size) < len(out_shape)
-            final_size = list(size[: -len(out_shape)])
-            for s, os in zip(size[-len(out_shape) :], out_shape):
-                if error or not (s == 1 or os == 1 or s == os):
+            extra = len(size) - len(out_shape)
+            final_size = list(size[: max(extra, 0)])
+            for s, os in zip((1,) * -extra + tuple(size[max(extra, 0):]), out_shape):
+                if extra < 0 or not (s == 1 or os == 1 or s == os):
                     raise ValueError(
                         f"The desired out size {size} is not compatible with "
                         f"the broadcast size of mean and cov {out_shape}. "
@@ -542,15 +536,12 @@ cdef class ExtendedGenerator:
                         f"either 1 or the same as the corresponding element "
                         f"of the broadcast size."
                     )
-                final_size.append(max(s, os))
+                final_size.append(s if os == 1 else os)
             out_shape = tuple(final_size)
 
         out = self._generator.standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
-        final = mean + np.squeeze(prod, axis=prod.ndim - 2)
-        if drop_dims and final.shape[0] == 1:
-            final = final.reshape(final.shape[1:])
-        return final
+        return mean + np.squeeze(prod, axis=prod.ndim - 2)
 
     def complex_normal(self, loc=0.0, gamma=1.0, relation=0.0, size=None):
         """
-- 
2.43.0


From 17ffa7c33d0a362c6cc77ec7b9b40d47f9b2868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 12/46] fix: treat a user-supplied factor A as A @ A.T = cov,
 as documented

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 4ec7894..936f0f0 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -74,7 +74,8 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
         psd = np.allclose(np.dot(vh.T * s, vh), cov, rtol=tol, atol=tol)
         _factor = (u * np.sqrt(s)).T
     elif meth == "factor":
-        return cov
+        # factors are used in the form F with F.T @ F = cov
+        return cov.T
     elif meth == "eigh":
         from numpy.linalg import eigh
 
@@ -1229,6 +1230,6 @@ and the trailing dimensions must match exactly so that
             fidx += 1
         factors = factors.reshape(common_shape + (2 * dim, 2 * dim))
         out = self.multivariate_normal(
-            larr.view(np.float64), factors, size=size, method="factor"
+            larr.view(np.float64), np.swapaxes(factors, -1, -2), size=size, method="factor"
         )
         return out.view(complex)
-- 
2.43.0


From 5d79c7a9dcd3233c28a9079763033485a35d6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 13/46] fix: apply the factor of scale on the right side in
 wishart

The factors satisfy F.T @ F = scale, so that the draws are F.T @ W @ F.
---
 randomgen/generator.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 936f0f0..36746ad 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -908,8 +908,8 @@ cdef class ExtendedGenerator:
             df_i = df_arr.item()
             out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
-            np.matmul(factor, out, out=out)
-            np.matmul(out, factor.T, out=out)
+            np.matmul(factor.T, out, out=out)
+            np.matmul(out, factor, out=out)
             return out
 
         if not shape_size:
@@ -976,8 +976,8 @@ and the trailing dimensions must match exactly so that
                                             lwork_data)
                 temp = large_values
             factor = _factors[shape_loc]
-            np.matmul(factor, temp, out=temp)
-            np.matmul(temp, factor.T, out=temp)
+            np.matmul(factor.T, temp, out=temp)
+            np.matmul(temp, factor, out=temp)
             out[..., i, :, :] = temp.reshape(temp_shape)
 
             np.PyArray_MultiIter_NEXT(it)
-- 
2.43.0


From b94263b10005c41e3ce5fedebc35c1978d4a2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 14/46] fix: use the converted scale in wishart

Lists failed and integer scales had their factors truncated.
---
 randomgen/generator.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 36746ad..0b99226 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -948,9 +948,11 @@ and the trailing dimensions must match exactly so that
         out_shape = out.shape
         out = out.reshape((-1, np.prod(it_shape), dim, dim))
         temp_shape = np.shape(out[..., 0, :, :])
-        _factors = np.empty_like(scale)
-        for loc in np.ndindex(*scale.shape[:len(scale.shape) - 2]):
-            _factors[loc] = _factorize(scale[loc], method, check_valid, tol, rank_val)
+        _factors = np.empty_like(shape_arr)
+        for loc in np.ndindex(*shape_size):
+            _factors[loc] = _factorize(
+                shape_arr[loc], method, check_valid, tol, rank_val
+            )
         _factors = _factors.reshape((-1, dim, dim))
 
         large_values = np.empty((block_size, dim, dim), dtype=np.float64)
-- 
2.43.0


From a649a35baeef5f59872c84fa7bdf94fa898c4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 15/46] fix: accept any sequence as size in wishart

---
 randomgen/generator.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 0b99226..e9c7cc1 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -932,6 +932,7 @@ cdef class ExtendedGenerator:
         else:
             if isinstance(size, (int, np.integer)):
                 size = (int(size),)
+            size = tuple(size)
             if len(size) < len(it_shape) or size[len(size)-len(it_shape):] != it_shape:
                 err_msg = (
 f"""size {size} is not compatible with the broadcast shape of `df` and `scale`
-- 
2.43.0


From adf6a9c9fbae8ea08ccd75d2154d8f1584b35fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 16/46] fix: hold the lock in scalar draws of complex_normal

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index e9c7cc1..0c1fe10 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -642,8 +642,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                with self.lock:
+                    f_real = random_standard_normal(&self._bitgen)
+                    f_imag = random_standard_normal(&self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From 7a192d3442059d81e26a9a0ad78b2009a4eae57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 17/46] fix: reject sizes that cannot hold the broadcast
 parameters in complex_normal

---
 randomgen/generator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 0c1fe10..0e8be28 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -695,6 +695,11 @@ cdef class ExtendedGenerator:
         n = np.PyArray_SIZE(randoms)
 
         it = np.PyArray_MultiIterNew5(randoms, oloc, v_real, v_imag, rho)
+        if it.shape != np.shape(randoms):
+            raise ValueError(
+                f"size {np.shape(randoms)} is not compatible with the broadcast shape "
+                "of loc, gamma and relation."
+            )
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-- 
2.43.0


From e0dbdb74caf78c573e498e60c212051633340853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 18/46] fix: index stacks of gamma and relation with more than
 one leading dimension

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 0e8be28..dc21ea6 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -1205,12 +1205,14 @@ and the trailing dimensions must match exactly so that
         else:
             _shape = np.shape(garr)[: gdim - 2]
             gidx = np.arange(np.prod(_shape)).reshape(_shape)
+            garr = np.reshape(garr, (-1, dim, dim))
         if rdim == 2:
             ridx = np.array([0])
             rarr = np.reshape(rarr, (1,) + np.shape(rarr))
         else:
             _shape = np.shape(rarr)[: rdim - 2]
             ridx = np.arange(np.prod(_shape)).reshape(_shape)
+            rarr = np.reshape(rarr, (-1, dim, dim))
 
         factors = np.empty(common_shape + (2 * dim, 2 * dim)).reshape(
             (-1, 2 * dim, 2 * dim)
-- 
2.43.0


From a1a4c83c3f94eb0e2e5b0399772d5e20edd6ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:15 +0000
Subject: [PATCH 19/46] fix: extend the random well before reading past its end
 in the Squares key sampler

---
 randomgen/squares.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index a89014c..5c7474d 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -85,14 +85,14 @@ cdef class _SequenceSampler:
 
     cdef void refill(self):
         """Refill the bit well after it is exhausted"""
-        self.bit_well = <uint64_t>self.random_well[self.index]
-        self.bit_well_loc = 0
-        self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
             )
+        self.bit_well = <uint64_t>self.random_well[self.index]
+        self.bit_well_loc = 0
+        self.index += 1
 
     cdef uint64_t gen_bits(self, int nbits):
         """Generate a fixed number of bits from the bit well"""
-- 
2.43.0


From 07a342fab8bda9cf51e011b21a308bd333975c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:48 +0000
Subject: [PATCH 20/46] fix: never select zero bits in SFC64.weyl_increments

The inclusive upper bound could exceed the last class, giving the value 1 whatever the requested range.
---
 randomgen/sfc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index e16d8eb..ba86c71 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -291,7 +291,7 @@ cdef class SFC64(BitGenerator):
         out = np.empty(n, dtype=np.uint64)
         out_arr = <uint64_t *>np.PyArray_DATA(out)
         for i in range(n):
-            val = <uint64_t>gen.integers(0, total, endpoint=True, dtype=np.uint64)
+            val = <uint64_t>gen.integers(0, total, dtype=np.uint64)
             nonzero_bits = 0
             for j in range(nbits):
                 if val < cum_count_arr[j] and nonzero_bits == 0:
-- 
2.43.0


From d8fbb5068d073e5045f873de7cdbd07c04bfead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:52 +0000
Subject: [PATCH 21/46] fix: keep seeding settings (SFC64 w and k, numpy_seed)
 when copying and pickling

---
 randomgen/common.pyx | 17 +++++++++++++++++
 randomgen/sfc.pyx    |  8 ++++++++
 2 files changed, 25 insertions(+)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4ef2f37..b8cb83f 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -86,6 +86,23 @@ cdef class BitGenerator(_BitGenerator):
         else:  # numpy
             self._seed_from_seq_numpy_compat(**kwargs)
 
+    def _pickle_config(self):
+        """Constructor settings needed to re-seed that are not part of the state"""
+        return {"mode": self.mode}
+
+    def _unpickle_config(self, config):
+        self.mode = config["mode"]
+
+    def __reduce__(self):
+        ctor, args, state = super().__reduce__()[:3]
+        return ctor, args, (*state, self._pickle_config())
+
+    def __setstate__(self, state):
+        if isinstance(state, tuple) and len(state) == 3:
+            self._unpickle_config(state[2])
+            state = state[:2]
+        super().__setstate__(state)
+
     @property
     def state(self):
         raise NotImplemented("subclasses must implement")
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index ba86c71..ee24f00 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -141,6 +141,14 @@ cdef class SFC64(BitGenerator):
     def _supported_modes(self):
         return "sequence", "numpy"
 
+    def _pickle_config(self):
+        return {**BitGenerator._pickle_config(self), "w": self.w, "k": self.k}
+
+    def _unpickle_config(self, config):
+        BitGenerator._unpickle_config(self, config)
+        self.w = config["w"]
+        self.k = config["k"]
+
     def _seed_from_seq(self):
         cdef int  loc, cnt
         cdef uint64_t *state_arr
-- 
2.43.0


From 04746b513ff37b530df9c600c37180a0bb93d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 22/46] fix: accept every NumPy integer type as entropy in
 SeedSequence

---
 randomgen/_seed_sequence.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index e5cba28..9c77cd3 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -72,7 +72,7 @@ def _int_to_uint32_array(n):
         raise ValueError("expected non-negative integer")
     if n == 0:
         arr.append(np.uint32(n))
-    if isinstance(n, np.unsignedinteger):
+    if isinstance(n, np.integer):
         # Cannot do n & MASK32, convert to python int
         n = int(n)
     while n > 0:
-- 
2.43.0


From 28463c9d5959c6327da16579964a382b325fd879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 23/46] fix: reject a negative number of children in
 SeedSequence.spawn

---
 randomgen/_seed_sequence.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index 9c77cd3..867f953 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -464,6 +464,8 @@ cdef class SeedSequence(object):
         """
         cdef int i
 
+        if n_children < 0:
+            raise ValueError("n_children must be non-negative")
         seqs = []
         for i in range(self.n_children_spawned,
                        self.n_children_spawned + n_children):
-- 
2.43.0


From 09e18be5d6d6cdb8222c026bc28f6f6a76364f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 24/46] fix: keep a copy of mutable entropy in SeedSequence

---
 randomgen/_seed_sequence.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index 867f953..1d1cb25 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -33,6 +33,7 @@ SOFTWARE.
 """
 
 import abc
+import copy
 from itertools import cycle
 import re
 
@@ -300,6 +301,9 @@ cdef class SeedSequence(object):
                                       np.ndarray, str)):
             raise TypeError("SeedSequence expects int or sequence of ints for "
                             "entropy not {}".format(entropy))
+        if isinstance(entropy, (list, np.ndarray)):
+            # Children are spawned from it later
+            entropy = copy.deepcopy(entropy)
         self.entropy = entropy
         self.spawn_key = tuple(spawn_key)
         self.pool_size = pool_size
-- 
2.43.0


From 3e486b7b923fa713d0e04789f64052613c1e6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:26 +0000
Subject: [PATCH 25/46] fix: reserve spawn keys before creating the children in
 SeedSequence.spawn

---
 randomgen/_seed_sequence.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index 1d1cb25..56b3118 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -471,14 +471,16 @@ cdef class SeedSequence(object):
         if n_children < 0:
             raise ValueError("n_children must be non-negative")
         seqs = []
-        for i in range(self.n_children_spawned,
-                       self.n_children_spawned + n_children):
+        # Reserve the keys before any child is created, since creating them can
+        # give another thread the opportunity to spawn from the same instance
+        first = self.n_children_spawned
+        self.n_children_spawned += n_children
+        for i in range(first, first + n_children):
             seqs.append(type(self)(
                 self.entropy,
                 spawn_key=self.spawn_key + (i,),
                 pool_size=self.pool_size,
             ))
-        self.n_children_spawned += n_children
         return seqs
 
 # We cannot directly subclass a `cdef class` type from an `ABC` in Cython, so
-- 
2.43.0


From 6ec36a66dd37c1c66000315f36aefbd1dca0fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 26/46] fix: keep large integers exact when keys and counters
 are given as lists

---
 randomgen/common.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index b8cb83f..f19ced8 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -382,17 +382,19 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
                             " {1}".format(name, all_sz))
     else:
         dtype = np.uint64 if default_bits==64 else np.uint32
+        exact = np.array(val, dtype=object)
         val = np.array(val)
         if not np.issubdtype(val.dtype, np.number):
             raise ValueError("{0} contains non-numeric values or values "
                              "out-of-range".format(name))
         if not np.all((val // 1) == val):
             raise TypeError("{0} contains floating point values".format(name))
-        max_val = np.iinfo(dtype).max
-        if not (np.all(val<=max_val) and np.all(val>=0)):
+        # Mixed large integers become floats in val, which cannot represent them
+        max_val = int(np.iinfo(dtype).max)
+        if not (np.all(exact<=max_val) and np.all(exact>=0)):
             raise ValueError("{0} has elements that are out-of-range for "
                              "{1}".format(name, str(dtype(0).dtype)))
-        val = val.astype(dtype, casting="unsafe")
+        val = exact.astype(dtype, casting="unsafe")
     if isinstance(val, np.ndarray):
         val = np.atleast_1d(val)
         if val.ndim != 1 or val.size == 0:
-- 
2.43.0


From 28661f1c68798ff1909915f2e2a617076e5094bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 27/46] fix: reject non-integral keys and counters in Squares

---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 5c7474d..9564d70 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -459,6 +459,8 @@ cdef class Squares(BitGenerator):
 
     @staticmethod
     cdef uint64_t _check_value(self, object val, object name, bint odd):
+        if int(val) != val:
+            raise ValueError(f"{name} must be an integer.")
         val = int(val)
         if not 0 <= val <= np.iinfo(np.uint64).max:
             raise ValueError(f"{name} must be positive and less than 2**64.")
-- 
2.43.0


From 95191a41326dc6de9c38df0d3e5d9ab2c2538a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 28/46] fix: reject out arguments that are not arrays

---
 randomgen/broadcasting.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index 126ffb6..bd9c86b 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -97,6 +97,8 @@ cdef check_output(object out, object dtype, object size, bint require_c_array):
     """
     if out is None:
         return
+    if not isinstance(out, np.ndarray):
+        raise TypeError("Supplied output must be an array.")
     cdef np.ndarray out_array = <np.ndarray> out
     if not (np.PyArray_ISCARRAY(out_array) or
             (np.PyArray_ISFARRAY(out_array) and not require_c_array)):
-- 
2.43.0


From ff3c2b1d8da48211489bb39490ff2b848b7b7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 29/46] fix: reject word sizes other than 32 and 64 in
 UserBitGenerator

---
 randomgen/wrapper.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/wrapper.pyx b/randomgen/wrapper.pyx
index a4a63f0..e0afd62 100644
--- a/randomgen/wrapper.pyx
+++ b/randomgen/wrapper.pyx
@@ -111,6 +111,8 @@ cdef class UserBitGenerator(BitGenerator):
                  next_double=None, state=None, state_getter=None,
                  state_setter=None):
         BitGenerator.__init__(self, 0)
+        if bits not in (32, 64):
+            raise ValueError("bits must be either 32 or 64.")
         self.funcs = {"next_raw": next_raw,
                       "next_64": next_64,
                       "next_32": next_32,
-- 
2.43.0


From e8909154c87a165a35c1c63cf830642d6c9e9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 30/46] fix: leave the state unchanged when a state assignment
 is rejected

---
 randomgen/aes.pyx          |  3 +++
 randomgen/chacha.pyx       |  3 +++
 randomgen/common.pyx       | 12 ++++++++++++
 randomgen/dsfmt.pyx        |  3 +++
 randomgen/efiix64.pyx      |  3 +++
 randomgen/hc128.pyx        |  3 +++
 randomgen/jsf.pyx          |  3 +++
 randomgen/lxm.pyx          |  3 +++
 randomgen/mt19937.pyx      |  3 +++
 randomgen/mt64.pyx         |  3 +++
 randomgen/pcg32.pyx        |  3 +++
 randomgen/pcg64.pyx        |  9 +++++++++
 randomgen/philox.pyx       |  3 +++
 randomgen/romu.pyx         |  3 +++
 randomgen/sfc.pyx          |  3 +++
 randomgen/sfmt.pyx         |  3 +++
 randomgen/speck128.pyx     |  3 +++
 randomgen/squares.pyx      |  3 +++
 randomgen/threefry.pyx     |  3 +++
 randomgen/tyche.pyx        |  3 +++
 randomgen/xoroshiro128.pyx |  3 +++
 randomgen/xorshift1024.pyx |  3 +++
 randomgen/xoshiro256.pyx   |  3 +++
 randomgen/xoshiro512.pyx   |  3 +++
 24 files changed, 87 insertions(+)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 8832b44..f48cab5 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -277,6 +277,9 @@ cdef class AESCounter(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef np.npy_intp i
 
         if not isinstance(value, dict):
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index 87d63b9..ed76b13 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -274,6 +274,9 @@ cdef class ChaCha(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index f19ced8..381247b 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -103,6 +103,18 @@ cdef class BitGenerator(_BitGenerator):
             state = state[:2]
         super().__setstate__(state)
 
+    def _set_state(self, value):
+        raise NotImplementedError("subclasses must implement")
+
+    def _replace_state(self, value):
+        """Set the state, or leave it as it is if value is not a valid state"""
+        saved = self.state
+        try:
+            self._set_state(value)
+        except Exception:
+            self._set_state(saved)
+            raise
+
     @property
     def state(self):
         raise NotImplemented("subclasses must implement")
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 9506c3d..e508214 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -269,6 +269,9 @@ cdef class DSFMT(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef Py_ssize_t i, j, loc = 0
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
diff --git a/randomgen/efiix64.pyx b/randomgen/efiix64.pyx
index 92cae6d..1357644 100644
--- a/randomgen/efiix64.pyx
+++ b/randomgen/efiix64.pyx
@@ -184,6 +184,9 @@ cdef class EFIIX64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef Py_ssize_t i
         cdef uint64_t *arr
 
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index b14ec79..645aa91 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -202,6 +202,9 @@ cdef class HC128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef int i
         cdef uint32_t *p_arr
         cdef uint32_t *q_arr
diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 4576efc..b2e056a 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -301,6 +301,9 @@ cdef class JSF(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index f927877..5489953 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -274,6 +274,9 @@ cdef class LXM(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 2f14d4d..acece88 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -296,6 +296,9 @@ cdef class MT19937(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if isinstance(value, tuple):
             if value[0] != "MT19937" or len(value) not in (3, 5):
                 raise ValueError("state is not a legacy MT19937 state")
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index 2dbaf5a..eaeee34 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -158,6 +158,9 @@ cdef class MT64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/pcg32.pyx b/randomgen/pcg32.pyx
index 08f8151..7e43f4d 100644
--- a/randomgen/pcg32.pyx
+++ b/randomgen/pcg32.pyx
@@ -167,6 +167,9 @@ cdef class PCG32(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index aabc5b0..5339668 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -327,6 +327,9 @@ cdef class PCG64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef np.ndarray state_vec
         cdef int has_uint32
         cdef uint32_t uinteger
@@ -818,6 +821,9 @@ cdef class LCG128Mix(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef np.ndarray state_vec, inc_vec, mult_vec
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
@@ -1104,6 +1110,9 @@ cdef class PCG64DXSM(PCG64):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef np.ndarray state_vec
         cdef int has_uint32
         cdef uint32_t uinteger
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index a31336f..1e8f290 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -368,6 +368,9 @@ cdef class Philox(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 9ca65f9..6039eaf 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -180,6 +180,9 @@ cdef class Romu(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index ee24f00..7ea247a 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -361,6 +361,9 @@ cdef class SFC64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 300c4fc..e24830a 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -275,6 +275,9 @@ cdef class SFMT(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef Py_ssize_t i, j, loc = 0
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 6dd3e8e..a625a5d 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -301,6 +301,9 @@ cdef class SPECK128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         cdef i
         cdef uint8_t *arr8
         cdef uint64_t *arr
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 9564d70..8756718 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -534,6 +534,9 @@ cdef class Squares(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 8878b80..0f5bb2b 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -353,6 +353,9 @@ cdef class ThreeFry(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 078f367..1733206 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -187,6 +187,9 @@ cdef class Tyche(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 9c72279..1791996 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -280,6 +280,9 @@ cdef class Xoroshiro128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index 1b71e70..c7dc7b4 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -256,6 +256,9 @@ cdef class Xorshift1024(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/xoshiro256.pyx b/randomgen/xoshiro256.pyx
index b8657ad..6076186 100644
--- a/randomgen/xoshiro256.pyx
+++ b/randomgen/xoshiro256.pyx
@@ -257,6 +257,9 @@ cdef class Xoshiro256(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
diff --git a/randomgen/xoshiro512.pyx b/randomgen/xoshiro512.pyx
index 142559f..b3f8d2b 100644
--- a/randomgen/xoshiro512.pyx
+++ b/randomgen/xoshiro512.pyx
@@ -252,6 +252,9 @@ cdef class Xoshiro512(BitGenerator):
 
     @state.setter
     def state(self, value):
+        self._replace_state(value)
+
+    def _set_state(self, value):
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
-- 
2.43.0


From 8b9e4d43151ec755f0461d5c82246c290c363621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 31/46] fix: reject states whose positions and sizes are out of
 range

---
 randomgen/aes.pxd          |  1 +
 randomgen/aes.pyx          |  8 ++++++--
 randomgen/chacha.pxd       |  1 +
 randomgen/chacha.pyx       |  8 +++++---
 randomgen/common.pxd       |  1 +
 randomgen/common.pyx       |  9 +++++++++
 randomgen/dsfmt.pxd        |  1 +
 randomgen/dsfmt.pyx        | 10 +++++++---
 randomgen/hc128.pxd        |  1 +
 randomgen/hc128.pyx        |  7 +++++--
 randomgen/jsf.pxd          |  7 ++++++-
 randomgen/jsf.pyx          |  9 +++++++--
 randomgen/mt19937.pxd      |  7 ++++++-
 randomgen/mt19937.pyx      |  3 ++-
 randomgen/mt64.pxd         |  1 +
 randomgen/mt64.pyx         |  2 +-
 randomgen/pcg64.pyx        |  7 ++++++-
 randomgen/philox.pxd       |  1 +
 randomgen/philox.pxd.in    |  1 +
 randomgen/philox.pyx       |  5 ++++-
 randomgen/sfmt.pxd         |  1 +
 randomgen/sfmt.pyx         |  6 ++++--
 randomgen/speck128.pxd     |  1 +
 randomgen/speck128.pyx     |  7 +++++--
 randomgen/threefry.pxd     |  1 +
 randomgen/threefry.pxd.in  |  1 +
 randomgen/threefry.pyx     |  5 ++++-
 randomgen/xorshift1024.pxd |  1 +
 randomgen/xorshift1024.pyx |  2 +-
 29 files changed, 91 insertions(+), 24 deletions(-)

diff --git a/randomgen/aes.pxd b/randomgen/aes.pxd
index ebe6679..3be4d17 100644
--- a/randomgen/aes.pxd
+++ b/randomgen/aes.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     BitGenerator,
     PyArray_calloc_aligned,
     PyArray_free_aligned,
+    check_state_int,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index f48cab5..b644553 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -288,10 +288,14 @@ cdef class AESCounter(BitGenerator):
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        state =value["s"]["state"]
+        state = value["s"]["state"]
+        if np.shape(state) != (16 * 4,):
+            raise ValueError("state must be a 1-d array with 64 elements")
         for i in range(16 * 4):
             self.rng_state.state[i] = state[i]
-        self.rng_state.offset = value["s"]["offset"]
+        # Values are read from the buffer 8 bytes at a time
+        self.rng_state.offset = 8 * check_state_int(value["s"]["offset"] / 8, 0, 8,
+                                                    "offset / 8")
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
diff --git a/randomgen/chacha.pxd b/randomgen/chacha.pxd
index 21553cf..19f2336 100644
--- a/randomgen/chacha.pxd
+++ b/randomgen/chacha.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     BitGenerator,
     PyArray_free_aligned,
     PyArray_malloc_aligned,
+    check_state_array,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index ed76b13..5a1a76a 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -285,13 +285,15 @@ cdef class ChaCha(BitGenerator):
                              "PRNG".format(type(self).__name__))
 
         state = value["state"]
-        block = state["block"]
+        block = check_state_array(state["block"], 16, 32, "block")
         for i in range(16):
             self.rng_state.block[i] = block[i]
-        keysetup = state["keysetup"]
+        keysetup = check_state_array(state["keysetup"], 8, 32, "keysetup")
         for i in range(8):
             self.rng_state.keysetup[i] = keysetup[i]
-        ctr = state["ctr"]
+        ctr = check_state_array(state["ctr"], 2, 64, "ctr")
         for i in range(2):
             self.rng_state.ctr[i] = ctr[i]
+        if state["rounds"] <= 0 or state["rounds"] % 2 != 0:
+            raise ValueError("rounds must be even and >= 2")
         self.rng_state.rounds = state["rounds"]
diff --git a/randomgen/common.pxd b/randomgen/common.pxd
index 0d902a7..ba7fb63 100644
--- a/randomgen/common.pxd
+++ b/randomgen/common.pxd
@@ -26,6 +26,7 @@ cdef object prepare_ctypes(bitgen_t *bitgen)
 cdef object wrap_int(object val, object bits)
 cdef object check_state_array(object arr, np.npy_intp required_len,
                               int required_bits, object name)
+cdef object check_state_int(object value, object low, object high, object name)
 cpdef object object_to_int(object val, object bits, object name,
                            int default_bits=*, object allowed_sizes=*)
 
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 381247b..71375bf 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -440,6 +440,15 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
     return np.ascontiguousarray(arr)
 
 
+cdef object check_state_int(object value, object low, object high, object name):
+    """Check that value is an integer in [low, high]"""
+    ival = int(value)
+    if ival != value or not low <= ival <= high:
+        raise ValueError("State element {0} must be an integer between {1} and "
+                         "{2}".format(name, low, high))
+    return ival
+
+
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
     """
     Convert a large integer to an array of unsigned integers
diff --git a/randomgen/dsfmt.pxd b/randomgen/dsfmt.pxd
index 41f5fc3..7257a99 100644
--- a/randomgen/dsfmt.pxd
+++ b/randomgen/dsfmt.pxd
@@ -8,6 +8,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
 )
 
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index e508214..18ccc4e 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -285,9 +285,13 @@ cdef class DSFMT(BitGenerator):
             for j in range(2):
                 self.rng_state.state.status[i].u[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
+        self.rng_state.state.idx = check_state_int(value["state"]["idx"], 0,
+                                                   DSFMT_N64, "idx")
         buffered_uniforms = value["buffered_uniforms"]
-        # TODO: Check buffered_uniforms
+        if np.shape(buffered_uniforms) != (DSFMT_N64,):
+            raise ValueError("buffered_uniforms must be a 1-d array with {0} "
+                             "elements".format(DSFMT_N64))
         for i in range(DSFMT_N64):
             self.rng_state.buffered_uniforms[i] = buffered_uniforms[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
+        self.rng_state.buffer_loc = check_state_int(value["buffer_loc"], 0, DSFMT_N64,
+                                                    "buffer_loc")
diff --git a/randomgen/hc128.pxd b/randomgen/hc128.pxd
index 57add01..5808838 100644
--- a/randomgen/hc128.pxd
+++ b/randomgen/hc128.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index 645aa91..5552895 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -228,5 +228,8 @@ cdef class HC128(BitGenerator):
         buf_arr = <uint32_t *>np.PyArray_DATA(buffer)
         for i in range(16):
             self.rng_state.buffer[i] = buf_arr[i]
-        self.rng_state.hc_idx = state["hc_idx"]
-        self.rng_state.buffer_idx = state["buffer_idx"]
+        # The index advances in steps of 16
+        self.rng_state.hc_idx = 16 * check_state_int(state["hc_idx"] / 16, 0, 63,
+                                                     "hc_idx / 16")
+        self.rng_state.buffer_idx = check_state_int(state["buffer_idx"], 0, 16,
+                                                    "buffer_idx")
diff --git a/randomgen/jsf.pxd b/randomgen/jsf.pxd
index 522d94a..fc71bb0 100644
--- a/randomgen/jsf.pxd
+++ b/randomgen/jsf.pxd
@@ -3,7 +3,12 @@
 cimport numpy as np
 from libc.stdint cimport uint32_t, uint64_t
 
-from randomgen.common cimport BitGenerator, fully_qualified_name, uint64_to_double
+from randomgen.common cimport (
+    BitGenerator,
+    check_state_int,
+    fully_qualified_name,
+    uint64_to_double,
+)
 
 
 cdef extern from "src/jsf/jsf.h":
diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index b2e056a..b195026 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -310,8 +310,13 @@ cdef class JSF(BitGenerator):
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.size = value["size"]
+        if value["size"] not in (32, 64):
+            raise ValueError("size must be either 32 or 64")
         state = value["state"]
+        for val in ("p", "q", "r"):
+            if state[val] is not None:
+                check_state_int(state[val], 0, value["size"] - 1, val)
+        self.size = value["size"]
         self.setup_generator(state["p"], state["q"], state["r"])
         if self.size == 64:
             self.rng_state.a.u64 = state["a"]
@@ -326,4 +331,4 @@ cdef class JSF(BitGenerator):
 
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
-        self.seed_size = value["seed_size"]
+        self.seed_size = check_state_int(value["seed_size"], 1, 3, "seed_size")
diff --git a/randomgen/mt19937.pxd b/randomgen/mt19937.pxd
index 54515d7..ac982ac 100644
--- a/randomgen/mt19937.pxd
+++ b/randomgen/mt19937.pxd
@@ -1,7 +1,12 @@
 cimport numpy as np
 from libc.stdint cimport uint32_t, uint64_t
 
-from randomgen.common cimport BitGenerator, check_state_array, fully_qualified_name
+from randomgen.common cimport (
+    BitGenerator,
+    check_state_array,
+    check_state_int,
+    fully_qualified_name,
+)
 
 
 cdef extern from "src/mt19937/mt19937.h":
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index acece88..8b81b77 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -314,4 +314,5 @@ cdef class MT19937(BitGenerator):
         key = check_state_array(value["state"]["key"], RK_STATE_LEN, 32, "key")
         for i in range(RK_STATE_LEN):
             self.rng_state.key[i] = key[i]
-        self.rng_state.pos = value["state"]["pos"]
+        self.rng_state.pos = check_state_int(value["state"]["pos"], 0, RK_STATE_LEN,
+                                             "pos")
diff --git a/randomgen/mt64.pxd b/randomgen/mt64.pxd
index 44a46e2..46cdeba 100644
--- a/randomgen/mt64.pxd
+++ b/randomgen/mt64.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index eaeee34..0cde533 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -170,6 +170,6 @@ cdef class MT64(BitGenerator):
         key = check_state_array(value["state"]["key"], 312, 64, "key")
         for i in range(312):
             self.rng_state.mt[i] = key[i]
-        self.rng_state.mti = value["state"]["pos"]
+        self.rng_state.mti = check_state_int(value["state"]["pos"], 0, 312, "pos")
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 5339668..c280613 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -348,7 +348,12 @@ cdef class PCG64(BitGenerator):
         state_vec[3] = inc % 2 ** 64
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
-        self.variant = value.get("variant", "1.0")
+        variant = str(value.get("variant", "1.0"))
+        if variant.lower().replace("-", "") not in (
+            "xslrr", "1", "1.0", "dxsm", "cmdxsm", "2", "2.0", "dxsm128"
+        ):
+            raise ValueError(f"variant {variant} is not known.")
+        self.variant = variant
         self._setup_rng_state()
 
         # Default False for backward compat
diff --git a/randomgen/philox.pxd b/randomgen/philox.pxd
index c1805f6..25a8186 100644
--- a/randomgen/philox.pxd
+++ b/randomgen/philox.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pxd.in b/randomgen/philox.pxd.in
index 97e527d..748d920 100644
--- a/randomgen/philox.pxd.in
+++ b/randomgen/philox.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index 1e8f290..dd36d42 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -378,6 +378,8 @@ cdef class Philox(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
+        if value.get("number", 4) not in (2, 4) or value.get("width", 64) not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
         self.rng_state.number = self.n = value.get("number", 4)
         self.rng_state.width = self.w = value.get("width", 64)
         self._setup_generator()
@@ -413,7 +415,8 @@ cdef class Philox(BitGenerator):
 
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+        self.rng_state.buffer_pos = check_state_int(value["buffer_pos"], 0,
+                                                    PHILOX_BUFFER_SIZE, "buffer_pos")
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/sfmt.pxd b/randomgen/sfmt.pxd
index 246fd6e..b26e356 100644
--- a/randomgen/sfmt.pxd
+++ b/randomgen/sfmt.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index e24830a..fad1052 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -292,11 +292,13 @@ cdef class SFMT(BitGenerator):
             for j in range(2):
                 self.rng_state.state.state[i].u64[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
+        self.rng_state.state.idx = check_state_int(value["state"]["idx"], 0,
+                                                   4 * SFMT_N, "idx")
         buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
                                             64,  "buffered_uint64")
         for i in range(SFMT_N64):
             self.rng_state.buffered_uint64[i] = buffered_uint64[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
+        self.rng_state.buffer_loc = check_state_int(value["buffer_loc"], 0, SFMT_N64,
+                                                    "buffer_loc")
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
diff --git a/randomgen/speck128.pxd b/randomgen/speck128.pxd
index ba2b46e..ce965f9 100644
--- a/randomgen/speck128.pxd
+++ b/randomgen/speck128.pxd
@@ -6,6 +6,7 @@ from randomgen.common cimport (
     PyArray_calloc_aligned,
     PyArray_free_aligned,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index a625a5d..5f64302 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -335,8 +335,11 @@ cdef class SPECK128(BitGenerator):
             self.rng_state.round_key[i].u64[0] = arr[2 * i]
             self.rng_state.round_key[i].u64[1] = arr[2 * i + 1]
 
-        self.rng_state.rounds = state["rounds"]
-        self.rng_state.offset = state["offset"]
+        self.rng_state.rounds = check_state_int(state["rounds"], 1, SPECK_MAX_ROUNDS,
+                                                "rounds")
+        # Values are read from the buffer 8 bytes at a time
+        self.rng_state.offset = 8 * check_state_int(state["offset"] / 8, 0,
+                                                    SPECK_UNROLL, "offset / 8")
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
 
diff --git a/randomgen/threefry.pxd b/randomgen/threefry.pxd
index d25031d..ca14bde 100644
--- a/randomgen/threefry.pxd
+++ b/randomgen/threefry.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pxd.in b/randomgen/threefry.pxd.in
index 96d462f..f9dc16f 100644
--- a/randomgen/threefry.pxd.in
+++ b/randomgen/threefry.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 0f5bb2b..bcecedd 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -363,6 +363,8 @@ cdef class ThreeFry(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
+        if value.get("number", 4) not in (2, 4) or value.get("width", 64) not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
         self.rng_state.number = self.n = value.get("number", 4)
         self.rng_state.width = self.w = value.get("width", 64)
         self._setup_generator()
@@ -393,7 +395,8 @@ cdef class ThreeFry(BitGenerator):
 
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+        self.rng_state.buffer_pos = check_state_int(value["buffer_pos"], 0,
+                                                    THREEFRY_BUFFER_SIZE, "buffer_pos")
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/xorshift1024.pxd b/randomgen/xorshift1024.pxd
index 654277a..c2d32b7 100644
--- a/randomgen/xorshift1024.pxd
+++ b/randomgen/xorshift1024.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_int,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index c7dc7b4..fcb93da 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -268,6 +268,6 @@ cdef class Xorshift1024(BitGenerator):
         state = check_state_array(value["state"]["s"], 16, 64, "s")
         for i in range(16):
             self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.p = value["state"]["p"]
+        self.rng_state.p = check_state_int(value["state"]["p"], 0, 15, "p")
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
-- 
2.43.0


From 1d5a6233f1de91cd23105a552723effea6acf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 32/46] fix: leave counter and seed sequence unchanged when a
 seed is rejected

---
 randomgen/common.pyx  | 14 ++++++++++----
 randomgen/squares.pyx |  6 ++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 71375bf..9b1c47a 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -77,14 +77,20 @@ cdef class BitGenerator(_BitGenerator):
         return copy.deepcopy(self._seed_seq)
 
     def _seed_with_seed_sequence(self, seed, **kwargs):
+        previous = self._seed_seq
         if isinstance(seed, ISEED_SEQUENCES):
             self._seed_seq = seed
         else:
             self._seed_seq = SeedSequence(seed)
-        if self.mode == "sequence":
-            self._seed_from_seq(**kwargs)
-        else:  # numpy
-            self._seed_from_seq_numpy_compat(**kwargs)
+        try:
+            if self.mode == "sequence":
+                self._seed_from_seq(**kwargs)
+            else:  # numpy
+                self._seed_from_seq_numpy_compat(**kwargs)
+        except Exception:
+            # Later spawns must not depend on a rejected seed
+            self._seed_seq = previous
+            raise
 
     def _pickle_config(self):
         """Constructor settings needed to re-seed that are not part of the state"""
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 8756718..a65072a 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -504,14 +504,12 @@ cdef class Squares(BitGenerator):
             If seed values are out of range for the PRNG.
         """
 
-        if counter is not None:
-            self.rng_state.counter = self._check_value(counter, "counter", False)
-        else:
-            self.rng_state.counter = counter = 0
+        counter = 0 if counter is None else self._check_value(counter, "counter", False)
         if key is not None:
             self.rng_state.key = self._check_value(key, "key", True)
         else:
             BitGenerator._seed_with_seed_sequence(self, seed, counter=counter)
+        self.rng_state.counter = counter
         self._reset_state_variables()
 
     @property
-- 
2.43.0


From 8812013527ff2cfb11a1e0766627dc713836e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 33/46] fix: check the scale of a Wishart draw before drawing

---
 randomgen/generator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index dc21ea6..a81a400 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -912,8 +912,8 @@ cdef class ExtendedGenerator:
         df_size = np.shape(df_arr)
         if not df_size and not shape_size:
             df_i = df_arr.item()
-            out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
+            out = self.standard_wishart(df_i, dim, size, False)
             np.matmul(factor.T, out, out=out)
             np.matmul(out, factor, out=out)
             return out
-- 
2.43.0


From 5a798588eec6d5ad2898ca0ec0dd6fa8c7e00a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 34/46] fix: reject an infeasible relation when a component has
 no variance

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index a81a400..fb4e590 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -638,6 +638,8 @@ cdef class ExtendedGenerator:
             f_rho = 0.0
             if fvar_i > 0 and fvar_r > 0:
                 f_rho = frelation_i / sqrt(fvar_i * fvar_r)
+            elif frelation_i != 0:
+                f_rho = np.inf
             if f_rho > 1.0 or f_rho < -1.0:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
-- 
2.43.0


From 64ab0a727a17a6d4ea0c414bcbab9a236867ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 35/46] fix: reject a mean that is not numeric before drawing

---
 randomgen/generator.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index fb4e590..3781951 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -500,7 +500,8 @@ cdef class ExtendedGenerator:
         if check_valid not in ("warn", "raise", "ignore"):
             raise ValueError("check_valid must equal 'warn', 'raise', or 'ignore'")
 
-        mean = np.array(mean)
+        # Not numeric is an error here, before anything is drawn
+        mean = np.array(mean) + 0.0
         cov = np.array(cov, dtype=np.double)
         if mean.ndim < 1:
             raise ValueError("mean must have at least 1 dimension")
-- 
2.43.0


From 0624c6effc020d7217bddc7e53fc5221302c5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 36/46] fix: undo the pivoting of the reduced rank Cholesky
 factor

---
 randomgen/generator.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 3781951..f2cbdba 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -103,8 +103,13 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
                 )
 
             func = get_lapack_funcs("pstrf")
-            _factor, _, rank_c, _ = func(cov)
-            _factor = np.triu(_factor)
+            _triangle, piv, rank_c, _ = func(cov)
+            _triangle = np.triu(_triangle)
+            # Rows beyond the rank are not part of the factor
+            _triangle[min(rank, rank_c):] = 0.0
+            # Undo the pivoting
+            _factor = np.empty_like(_triangle)
+            _factor[:, piv - 1] = _triangle
             psd = rank_c >= rank
 
     if not psd and check_valid != "ignore":
-- 
2.43.0


From b9018bdb71b6a9113c137ccc18fad1c43e6a421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:59 +0000
Subject: [PATCH 37/46] fix: reject an output_func that is neither a name nor a
 ctypes function

---
 randomgen/pcg64.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index c280613..cdb384a 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -882,6 +882,8 @@ cdef class LCG128Mix(BitGenerator):
             self.rng_state.pcg_state.output_func = (
                 <pcg_output_func_t>self.output_function_address
             )
+        else:
+            raise ValueError("output_func must be a string or a ctypes function")
 
     def advance(self, delta):
         """
-- 
2.43.0


From 564d1ef38e045af67b627a4da9ae2907679b6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:18 +0000
Subject: [PATCH 38/46] fix: broadcast the relation against the variance in
 complex_normal

---
 randomgen/generator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index f2cbdba..d92f65a 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -686,7 +686,7 @@ cdef class ExtendedGenerator:
         if np.any(np.not_equal(np.imag(ogamma), 0)):
             raise ValueError("Im(gamma) != 0")
 
-        cov = 0.5 * np.imag(orelation)
+        cov = np.broadcast_to(0.5 * np.imag(orelation), np.shape(v_real))
         rho = np.zeros_like(cov)
         idx = (v_real.flat > 0) & (v_imag.flat > 0)
         rho.flat[idx] = cov.flat[idx] / np.sqrt(v_real.flat[idx] * v_imag.flat[idx])
-- 
2.43.0


From f06c3f47e3e8797ae5b53deb3b86342253c737cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 39/46] fix: keep the imaginary parts of scalar array and
 single precision arguments of complex_normal

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index d92f65a..c40db1d 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -626,6 +626,8 @@ cdef class ExtendedGenerator:
         if (np.PyArray_NDIM(ogamma) ==
                 np.PyArray_NDIM(orelation) ==
                 np.PyArray_NDIM(oloc) == 0):
+            # Python complex numbers, whatever the type of the arguments
+            loc, gamma, relation = oloc.item(), ogamma.item(), orelation.item()
             floc_r = PyComplex_RealAsDouble(loc)
             floc_i = PyComplex_ImagAsDouble(loc)
             fgamma_r = PyComplex_RealAsDouble(gamma)
-- 
2.43.0


From 50697bd33eee646e9a2c38d05e1951d24b3a4b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 40/46] fix: keep the number of retries in RDRAND.jumped

---
 randomgen/rdrand.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..be56c69 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -421,6 +421,7 @@ cdef class RDRAND(BitGenerator):
         """
         cdef RDRAND bit_generator
         bit_generator = self.__class__()
+        bit_generator.rng_state.retries = self.rng_state.retries
         bit_generator._set_seed_seq(self._seed_seq)
 
         return bit_generator
-- 
2.43.0


From ece9dfa4b05e0071fb1410e7a758fda32abe1d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 41/46] fix: never read past the RDRAND buffer, and raise in
 all calls after a failure

---
 randomgen/rdrand.pyx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index be56c69..450af4a 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -26,22 +26,21 @@ increase the number of retries to slow down the generation on contested CPUs.
 cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
     cdef PyObject *err
     cdef rdrand_state *state
-    cdef int status
     cdef uint64_t val
     state = <rdrand_state*>st
-    status = 1
     if state.status == 1 and state.buffer_loc < BUFFER_SIZE:
         val = state.buffer[state.buffer_loc]
         state.buffer_loc += 1
         return val
-    elif state.status == 1:
-        # Only refill if good status
-        # This function will
-        status = rdrand_fill_buffer(state)
+    if state.buffer_loc >= BUFFER_SIZE:
+        # Never read past the end of the buffer. After a failure, the status
+        # remains 0 whether the buffer can be filled or not.
+        rdrand_fill_buffer(state)
     val = state.buffer[state.buffer_loc]
     state.buffer_loc += 1
-    if status == 0:
-        # Only raise on a status change
+    if state.status == 0:
+        # The buffer can contain values that did not come from RDRAND, and so
+        # all calls raise until the failed state is reset
         with gil:
             err = PyErr_Occurred()
             if err == NULL:
-- 
2.43.0


From 55b9fd8a761794c52f40ef7c32c3b614b41c7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 42/46] fix: Squares keys were corrupted when other keys were
 generated while a seed sequence was being asked

---
 randomgen/squares.pyx | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index a65072a..3bbf15d 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -28,17 +28,10 @@ cdef class _TestSeninal:
 
 _test_sentinal = _TestSeninal()
 
-# Module level variables to save small allocations
 cdef np.ndarray WORDS_ARR = np.arange(16, dtype=np.uint8)
 cdef uint8_t[::1] WORDS = WORDS_ARR
 
 
-cdef void _reset_words():
-    cdef int i
-    for i in range(16):
-        WORDS[i] = i
-
-
 def _get_words():
     return np.asarray(WORDS)
 
@@ -152,11 +145,11 @@ cdef uint64_t generate_key(_SequenceSampler seq_sampler):
     The core key generation implementation
     """
     cdef uint64_t out, i
-    cdef uint8_t[::1] tmp = WORDS
+    # Not shared: a refill calls into Python, where other keys may be generated
+    cdef uint8_t[::1] tmp = np.arange(16, dtype=np.uint8)
     cdef uint8_t last_value, next_value, old
 
     out = 0
-    _reset_words()
     seq_sampler.shuffle(tmp)
     if not (tmp[0] & 0x1):
         old = tmp[0]
-- 
2.43.0


From 4596ffcc2fa7a94750a037952ba483dbaee5a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 43/46] fix: close the entropy source when it delivers less
 than was asked for

---
 randomgen/src/entropy/entropy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 17ac8c4..07b1895 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -82,9 +82,10 @@ bool entropy_getbytes(void *dest, size_t size) {
   if (fd < 0)
     return false;
   ssize_t sz = read(fd, dest, size);
+  bool closed = close(fd) == 0;
   if ((sz < 0) || ((size_t)sz < size))
     return false;
-  return close(fd) == 0;
+  return closed;
 }
 #endif
 
-- 
2.43.0


From f54db1909e58098cb0ae3706ba45917478c9e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 44/46] fix: seed_by_array rounded lists of small and large
 integers to floats

---
 randomgen/entropy.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 8fc1afb..934903a 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -94,7 +94,8 @@ def seed_by_array(object seed, Py_ssize_t n):
         seed_array = np.array([int_seed], dtype=np.uint64)
     else:
         err_msg = "Seed values must be integers between 0 and 2**64 - 1"
-        obj = np.asarray(seed).astype(object)
+        # Convert directly, mixed integers would become floats on the way
+        obj = np.asarray(seed, dtype=object)
         if obj.ndim != 1:
             raise ValueError("Array-valued seeds must be 1-dimensional")
         if not all((np.isscalar(v) and np.isreal(v)) for v in obj):
-- 
2.43.0


From d85e6c81664366e9c49b1ed380a1b2e0d667898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 45/46] fix: random_entropy failed for requests of no values

---
 randomgen/entropy.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 934903a..1412d2b 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -173,6 +173,8 @@ def random_entropy(size=None, source="system"):
             success = entropy_fallback_getbytes(<void *>&random, 4)
     else:
         n = compute_numel(size)
+        if n == 0:
+            return np.zeros(size, dtype=np.uint32)
         randoms = np.zeros(n, dtype=np.uint32)
         if source in ("system", "auto"):
             success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
-- 
2.43.0


From a87c13dbaa0d1556364b1c1d5a9f21a4edb1b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:33 +0000
Subject: [PATCH 46/46] fix: SeedSequence.spawn failed beyond 2**31 children,
 and counted children of a refused request

The loop variable was a C int, so that no child could be created once
n_children_spawned had reached 2**31 - 1. A count that is not an integer
was added to n_children_spawned before it was refused.
---
 randomgen/_seed_sequence.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index 56b3118..14ecbce 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -466,16 +466,15 @@ cdef class SeedSequence(object):
         seqs :  list[SeedSequence]
             Child SeedSequences with incremented  ``spawn_key``
         """
-        cdef int i
-
         if n_children < 0:
             raise ValueError("n_children must be non-negative")
         seqs = []
         # Reserve the keys before any child is created, since creating them can
         # give another thread the opportunity to spawn from the same instance
         first = self.n_children_spawned
+        keys = range(first, first + n_children)
         self.n_children_spawned += n_children
-        for i in range(first, first + n_children):
+        for i in keys:
             seqs.append(type(self)(
                 self.entropy,
                 spawn_key=self.spawn_key + (i,),
-- 
2.43.0

