From e8e64000f4455827e103a7975fc8b2070e0f2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 01/37] Verification hooks guarded by CHIAVDF_VERIF_HOOKS (no
 effect unless defined)

---
 src/callback.h     | 3 +++
 src/fast_storage.h | 1 +
 src/include.h      | 8 ++++++++
 src/provers.h      | 5 +++++
 src/vdf.h          | 1 +
 5 files changed, 18 insertions(+)

diff --git a/src/callback.h b/src/callback.h
index f4764bb..5f2c39c 100644
--- a/src/callback.h
+++ b/src/callback.h
@@ -15,6 +15,9 @@ const int kWindowSize = 20;
 // Applies only to 2-weso.
 const int kMaxItersAllowed = 8e8;
 const int kSwitchIters = 91000000;
+#ifdef CHIAVDF_VERIF_HOOKS
+#include "chiavdf_verif_scale.h"
+#endif
 
 class WesolowskiCallback :public INUDUPLListener {
 public:
diff --git a/src/fast_storage.h b/src/fast_storage.h
index ebedf79..1597e52 100644
--- a/src/fast_storage.h
+++ b/src/fast_storage.h
@@ -64,6 +64,7 @@ class FastStorage {
     }
 
     void CalculateIntermediatesInner(form y, uint64_t iter_begin) {
+        CHIAVDF_VERIF_POINT("store_begin", iter_begin, 0);
         PulmarkReducer reducer;
         integer& D = weso->D;
         integer& L = weso->L;
diff --git a/src/include.h b/src/include.h
index a877fca..40de854 100644
--- a/src/include.h
+++ b/src/include.h
@@ -74,4 +74,12 @@ typedef int64_t int64;
 
 #define todo
 
+// Verification builds only (-DCHIAVDF_VERIF_HOOKS): the harness supplies this header, which may
+// observe or delay the marked points and scale the 2-weso thresholds. Expands to nothing otherwise.
+#ifdef CHIAVDF_VERIF_HOOKS
+#include "chiavdf_verif_hooks.h"
+#else
+#define CHIAVDF_VERIF_POINT(name, arg1, arg2) do {} while (0)
+#endif
+
 #endif // INCLUDE_H
diff --git a/src/provers.h b/src/provers.h
index ffb1245..4df599f 100644
--- a/src/provers.h
+++ b/src/provers.h
@@ -50,6 +50,10 @@ class TwoWesolowskiProver : public Prover{
         this->weso = weso;
         this->done_iterations = segm.start;
         k = 10;
+#ifdef CHIAVDF_VERIF_HOOKS
+        // Compare as if the 2-weso thresholds had not been scaled down.
+        segm.length = CHIAVDF_VERIF_UNSCALE(segm.length);
+#endif
         l = (segm.length < 10000000) ? 1 : 10;
     }
 
@@ -151,6 +155,7 @@ class InterruptableProver: public Prover {
     }
 
     bool PerformExtraStep() {
+        CHIAVDF_VERIF_POINT("segment_step", done_iterations, bucket);
         if (is_finished) {
             return false;
         }
diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..4b04723 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -614,6 +614,7 @@ class ProverManager {
             }
             if (stopped)
                 return;
+            CHIAVDF_VERIF_POINT("event_loop", weso->iterations.load(), 0);
             // Check if we can prove the last segment for some iteration.
             vdf_iteration = weso->iterations;
             // VDF running longer than expected, increase proving threads count.
-- 
2.43.0


From 326d2eafef2bc80f586371b641b6f66691d8b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 02/37] fix: HashPrime loops forever when a short seed's
 sequence holds no prime

---
 src/proof_common.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proof_common.h b/src/proof_common.h
index 5cf32c8..0d92747 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -40,6 +40,9 @@ integer HashPrime(std::vector<uint8_t> seed, int length, vector<int> bitmask) {
         p.set_bit(0, true);
         if (p.prime())
             return p;
+        // A short seed wraps around; once back at the start, only the same candidates would follow.
+        if (sprout == seed)
+            throw std::runtime_error("No prime found in the hash sequence of the seed");
     }
 }
 
-- 
2.43.0


From 21d01f016cc0faceccddcb980364b512a582c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/37] fix: primality test rejects small primes that divide
 the trial products

---
 src/primetest.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/primetest.h b/src/primetest.h
index 8d824e2..59e2325 100644
--- a/src/primetest.h
+++ b/src/primetest.h
@@ -151,6 +151,17 @@ static int is_prime_bpsw(const mpz_t n)
     if (!mpz_tstbit(n, 0) && mpz_cmp_ui(n, 2))
         return 0;
 
+    /* The products below contain the small primes themselves, so decide small n
+     * by trial division. */
+    if (mpz_cmp_ui(n, 1U << 16) < 0) {
+        unsigned long v = mpz_get_ui(n), f;
+        for (f = 3; f * f <= v; f += 2) {
+            if (v % f == 0)
+                return 0;
+        }
+        return mpz_cmp_ui(n, 1) > 0 ? 2 : 0;
+    }
+
     /* Adjust the number of GCDs to compute with products of small primes
      * if bit length of n is less than 1024. As the computational cost of
      * Miller-Rabin test is cubic in bit length of n, choose the number of
-- 
2.43.0


From 06b71709b8670f6c24854bd7c795a0f31f684c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 04/37] fix: strict form decoding accepts encodings of
 non-reduced forms

---
 src/proof_common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proof_common.h b/src/proof_common.h
index 0d92747..b3af26f 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -62,7 +62,8 @@ form DeserializeForm(const integer &D, const uint8_t *bytes, size_t size,
         throw std::runtime_error("Deserializing compressed form failed");
     }
     form f = form::from_abd(a, b, D);
-    if (!f.is_reduced()) {
+    // from_abd() reduces, so in strict mode also require that the encoded (a, b) was reduced.
+    if (!f.is_reduced() || (strict && !(f.a == a && f.b == b))) {
         throw std::runtime_error("Form is not reduced");
     }
     return f;
-- 
2.43.0


From b575a9009b972eb169bef34ae6aa12fb549de41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 05/37] fix: vdf_original::multiply uses uninitialised scratch
 numbers

---
 src/vdf_original.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vdf_original.h b/src/vdf_original.h
index 668aaa8..4d7f9a2 100644
--- a/src/vdf_original.h
+++ b/src/vdf_original.h
@@ -317,12 +317,12 @@ public:
 
     vdf_original() {
         mpz_inits(negative_a, r, denom, old_a, old_b, ra, s, x, g, d, e, q, w, m,
-                u, a, b, k, mu, v, sigma, lambda, f3.a, f3.b, f3.c, //f3.d,
+                u, a, b, k, mu, v, sigma, lambda, h, t, l, j, f3.a, f3.b, f3.c, //f3.d,
                 NULL);
     }
 
     ~vdf_original() {
         mpz_clears(negative_a, r, denom, old_a, old_b, ra, s, x, g, d, e, q, w, m,
-                   u, a, b, k, mu, v, sigma, lambda, f3.a, f3.b, f3.c, NULL); //,);
+                   u, a, b, k, mu, v, sigma, lambda, h, t, l, j, f3.a, f3.b, f3.c, NULL); //,);
     }
 };
-- 
2.43.0


From 61c7ff336125866a86e34bc21643ca8bd2fec0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 06/37] fix: fast reduction leaves (a, -a, c) unreduced

---
 src/Reducer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Reducer.h b/src/Reducer.h
index 9fa7b5b..85ad731 100644
--- a/src/Reducer.h
+++ b/src/Reducer.h
@@ -172,7 +172,9 @@ bool bLZCHasHW=false;
     if (a_c > 0) {
       mpz_swap(ctx.a, ctx.c);
       mpz_neg(ctx.b, ctx.b);
-    } else if (a_c == 0 && mpz_sgn(ctx.b) < 0) {
+    }
+    // (a, -a, c) and (a, b, a) with b < 0 are equivalent to the reduced (a, a, c) and (a, -b, a)
+    if (mpz_sgn(ctx.b) < 0 && (a_c == 0 || mpz_cmpabs(ctx.a, ctx.b) == 0)) {
       mpz_neg(ctx.b, ctx.b);
     }
     return true;
-- 
2.43.0


From 2bbccd46f67180df2a645c987d7aad36eef3a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 07/37] fix: ProveSlow writes out of bounds for iteration
 counts near 2^64

---
 src/prover_slow.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/prover_slow.h b/src/prover_slow.h
index 8479856..18fd27e 100644
--- a/src/prover_slow.h
+++ b/src/prover_slow.h
@@ -112,7 +112,8 @@ std::vector<uint8_t> ProveSlow(integer& D, form& x, uint64_t num_iterations, std
     if (l <= 0) l = 1;
     int const kl = k * l;
 
-    uint64_t const size_vec = (num_iterations + kl - 1) / kl;
+    // Rounded up without overflowing for counts close to 2^64.
+    uint64_t const size_vec = num_iterations / kl + (num_iterations % kl != 0);
     std::vector<form> intermediates(size_vec);
     form* cursor = intermediates.data();
     for (uint64_t i = 0; i < num_iterations; i++) {
-- 
2.43.0


From 1f91d0f171c3bfc3597a527f9955e13354b3c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 08/37] fix: discriminants that no form can have crash or hang
 the verifiers

---
 src/proof_common.h | 9 +++++++++
 src/verifier.h     | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proof_common.h b/src/proof_common.h
index b3af26f..60ea609 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -54,9 +54,18 @@ std::vector<unsigned char> SerializeForm(form &y, int d_bits)
     return res;
 }
 
+// The arithmetic handles forms with odd b of a negative discriminant only.
+inline bool IsFormDiscriminant(const integer &D)
+{
+    return mpz_sgn(D.impl) < 0 && mpz_fdiv_ui(D.impl, 4) == 1;
+}
+
 form DeserializeForm(const integer &D, const uint8_t *bytes, size_t size,
                      bool strict = false)
 {
+    if (!IsFormDiscriminant(D)) {
+        throw std::runtime_error("Invalid discriminant");
+    }
     integer a, b;
     if (bqfc_deserialize(a.impl, b.impl, D.impl, bytes, size, D.num_bits(), strict)) {
         throw std::runtime_error("Deserializing compressed form failed");
diff --git a/src/verifier.h b/src/verifier.h
index 97690c9..dc86ae9 100644
--- a/src/verifier.h
+++ b/src/verifier.h
@@ -19,7 +19,7 @@ inline bool IsDiscSizeBitsInRange(const uint64_t disc_size_bits)
 inline bool IsDiscriminantInRange(const integer& D)
 {
     const int d_bits = D.num_bits();
-    return d_bits > 0 && static_cast<uint64_t>(d_bits) <= static_cast<uint64_t>(BQFC_MAX_D_BITS);
+    return IsFormDiscriminant(D) && static_cast<uint64_t>(d_bits) <= static_cast<uint64_t>(BQFC_MAX_D_BITS);
 }
 
 int VerifyWesoSegment(integer &D, form x, form proof, integer &B, uint64_t iters, form &out_y)
-- 
2.43.0


From a3aa8ce2eb622e754ddf13851777dd2d2717d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 09/37] fix: unparsable number strings go unnoticed or abort

---
 src/integer_common.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/integer_common.h b/src/integer_common.h
index 73a0525..f57238a 100644
--- a/src/integer_common.h
+++ b/src/integer_common.h
@@ -4,6 +4,7 @@
 #include "primetest.h"
 #include "checked_cast.h"
 #include <limits>
+#include <stdexcept>
 
 //note: gmp already has c++ bindings so could have just used those. oh well
 
@@ -171,9 +172,10 @@ struct integer {
 
     explicit integer(const string& s) {
         mpz_init(impl);
-        int res = mpz_set_str(impl, s.c_str(), 0);
-        assert(res == 0);
-        (void)res;
+        if (mpz_set_str(impl, s.c_str(), 0) != 0) {
+            mpz_clear(impl);
+            throw std::invalid_argument("Invalid number");
+        }
     }
 
     explicit integer(const std::vector<uint8_t> v) {
@@ -227,9 +229,9 @@ struct integer {
     }
 
     integer& operator=(const string& s) {
-        int res = mpz_set_str(impl, s.c_str(), 0);
-        assert(res == 0);
-        (void)res;
+        if (mpz_set_str(impl, s.c_str(), 0) != 0) {
+            throw std::invalid_argument("Invalid number");
+        }
         return *this;
     }
 
-- 
2.43.0


From 3cb805ca7748f3929b9d3f1af78eb00c4918dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 10/37] fix: bindings read a whole form from a shorter x_s

---
 rust_bindings/src/lib.rs        |  4 ++++
 src/python_bindings/fastvdf.cpp | 13 +++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rust_bindings/src/lib.rs b/rust_bindings/src/lib.rs
index fc4c91d..7214d09 100644
--- a/rust_bindings/src/lib.rs
+++ b/rust_bindings/src/lib.rs
@@ -29,6 +29,10 @@ pub fn verify_n_wesolowski(
     num_iterations: u64,
     recursion: u64,
 ) -> bool {
+    // The C++ side reads exactly one serialized form from `x_s`.
+    if x_s.len() != 100 {
+        return false;
+    }
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and false is returned if so.
     unsafe {
diff --git a/src/python_bindings/fastvdf.cpp b/src/python_bindings/fastvdf.cpp
index 9af6750..4452cc9 100644
--- a/src/python_bindings/fastvdf.cpp
+++ b/src/python_bindings/fastvdf.cpp
@@ -25,6 +25,11 @@ static py::bytes to_signed_bytes_be(const integer& value) {
     return py::bytes(out);
 }
 
+// The verifiers read exactly BQFC_FORM_SIZE bytes of x_s and reject a null pointer.
+static const uint8_t* form_data(const std::string& x_s) {
+    return x_s.size() == BQFC_FORM_SIZE ? reinterpret_cast<const uint8_t*>(x_s.data()) : nullptr;
+}
+
 PYBIND11_MODULE(_chiavdf, m) {
     m.doc() = "Chia proof of time";
 
@@ -75,7 +80,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         bool is_valid = false;
         {
             py::gil_scoped_release release;
-            is_valid=CheckProofOfTimeNWesolowski(integer(discriminant_copy), (const uint8_t *)x_s_copy.data(), proof_blob_ptr, proof_blob_copy.size(), num_iterations, disc_size_bits, recursion);
+            is_valid=CheckProofOfTimeNWesolowski(integer(discriminant_copy), form_data(x_s_copy), proof_blob_ptr, proof_blob_copy.size(), num_iterations, disc_size_bits, recursion);
         }
         return is_valid;
     });
@@ -94,7 +99,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         bool is_valid = false;
         {
             py::gil_scoped_release release;
-            is_valid=CreateDiscriminantAndCheckProofOfTimeNWesolowski(challenge_hash_bits, discriminant_size_bits,(const uint8_t *)x_s_copy.data(), (const uint8_t *)proof_blob_copy.data(), proof_blob_copy.size(), num_iterations, recursion);
+            is_valid=CreateDiscriminantAndCheckProofOfTimeNWesolowski(challenge_hash_bits, discriminant_size_bits,form_data(x_s_copy), (const uint8_t *)proof_blob_copy.data(), proof_blob_copy.size(), num_iterations, recursion);
         }
         return is_valid;
     });
@@ -132,7 +137,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         {
             py::gil_scoped_release release;
             uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
-            result = CheckProofOfTimeNWesolowskiWithB(integer(discriminant_copy), integer(B_copy), (const uint8_t *)x_s_copy.data(), proof_blob_ptr, proof_blob_copy.size(), num_iterations, recursion);
+            result = CheckProofOfTimeNWesolowskiWithB(integer(discriminant_copy), integer(B_copy), form_data(x_s_copy), proof_blob_ptr, proof_blob_copy.size(), num_iterations, recursion);
         }
         py::bytes res_bytes = py::bytes(reinterpret_cast<char*>(result.second.data()), result.second.size());
         return py::tuple(py::make_tuple(result.first, res_bytes));
@@ -163,7 +168,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         {
             py::gil_scoped_release release;
             uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
-            B = GetBFromProof(integer(discriminant_copy), (const uint8_t *)x_s_copy.data(), proof_blob_ptr, proof_blob_copy.size(), num_iterations, recursion);
+            B = GetBFromProof(integer(discriminant_copy), form_data(x_s_copy), proof_blob_ptr, proof_blob_copy.size(), num_iterations, recursion);
         }
         return B.to_string();
     });
-- 
2.43.0


From 9d6fc6a85d1660714e4c16c8d17297e30c6684c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 11/37] fix: segments are proved before the VDF loop has
 written their end

Background storing can finish a segment before the (slower or preempted) VDF
loop has reached its end and written the checkpoint there. The event loop then
created the segment with an empty or half-written end element, which crashed
the segment prover or produced an invalid proof.
---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 4b04723..2c748ca 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -705,7 +705,8 @@ class ProverManager {
             }
 
             if (fast_storage != NULL) {
-                intermediates_iter = fast_storage -> GetFinishedSegment();
+                // Storing can overtake the VDF loop, but a segment needs the checkpoint at its end too.
+                intermediates_iter = std::min(fast_storage -> GetFinishedSegment(), vdf_iteration.load());
             } else {
                 intermediates_iter = vdf_iteration;
             }
-- 
2.43.0


From 52d103e916ea89d8af76121363e640823a0f9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 12/37] fix: unfinished segments end up in n-wesolowski proofs

When a later segment of some length finishes before an earlier one, the earlier
one's entry is an empty placeholder. The event loop skips those when it
computes the provable iterations, but Prove() put them into the proof, which
crashed on the empty forms or produced an invalid proof.
---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 2c748ca..a4f7534 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -543,7 +543,8 @@ class ProverManager {
             for (int i = segment_count - 1; i >= 0; i--) {
                 uint64_t segment_size = (1LL << (16 + 2 * i));
                 uint64_t position = proved_iters / segment_size;
-                while (position < done_segments[i].size() && proved_iters + segment_size <= iteration) {
+                while (position < done_segments[i].size() && !done_segments[i][position].is_empty &&
+                       proved_iters + segment_size <= iteration) {
                     proof_segments.emplace_back(done_segments[i][position]);
                     position++;
                     proved_iters += segment_size;
-- 
2.43.0


From ad99574a40bb73921a4d42d01cb5bd0619ff445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 13/37] fix: a finished prover's wake-up can come before its
 thread counts as free

OnFinish() notified the event loop first and marked the prover as fully
finished afterwards. An event loop that ran in between kept the prover and its
slot, and nothing woke it up again until an unrelated event: with few proving
threads, pending segments and the requests waiting for them were stuck.
---
 src/provers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provers.h b/src/provers.h
index 4df599f..1d2c49f 100644
--- a/src/provers.h
+++ b/src/provers.h
@@ -190,13 +190,14 @@ class InterruptableProver: public Prover {
     void OnFinish() {
         is_finished = true;
         if (!is_fully_finished) {
+            // The event loop frees only fully finished provers, so be one before waking it up.
+            is_fully_finished = true;
             // Notify event loop a proving thread is free.
             {
                 std::lock_guard<std::mutex> lk(new_event_mutex);
                 new_event = true;
             }
             new_event_cv.notify_one();
-            is_fully_finished = true;
         }
     }
 
-- 
2.43.0


From bbe26d9650cc6bdd2e1faa0e4856efcc1278aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 14/37] fix: data races between the background storage threads
 and their readers

The 'stored' flags that publish finished intermediates, and the stop flag, were
plain bools accessed from several threads without synchronisation.
---
 src/fast_storage.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fast_storage.h b/src/fast_storage.h
index 1597e52..d4dc005 100644
--- a/src/fast_storage.h
+++ b/src/fast_storage.h
@@ -11,6 +11,8 @@
 
 #include "vdf_new.h"
 
+#include <atomic>
+
 extern bool new_event;
 extern std::mutex new_event_mutex;
 extern std::condition_variable new_event_cv;
@@ -20,7 +22,7 @@ class FastStorage {
     FastStorage(FastAlgorithmCallback* weso) {
         stopped = false;
         this->weso = weso;
-        intermediates_stored = new bool[(1 << 19)];
+        intermediates_stored = new std::atomic<bool>[(1 << 19)];
         for (int i = 0; i < (1 << 19); i++)
             intermediates_stored[i] = 0;
 
@@ -122,8 +124,8 @@ class FastStorage {
   private:
     std::vector<std::thread> storage_threads;
     FastAlgorithmCallback* weso;
-    bool* intermediates_stored;
-    bool stopped;
+    std::atomic<bool>* intermediates_stored;
+    std::atomic<bool> stopped;
     std::map<uint64_t, form> pending_intermediates;
     int intermediates_threads = 6;
     std::mutex intermediates_mutex;
-- 
2.43.0


From 1b248c7f6ba6df984a6fe1987f0f78d76fe1363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:26 +0000
Subject: [PATCH 15/37] fix: stopping while a proof request is being retried

ProverManager::Prove() slept for a minute without looking at the stop flag, and
then fell through to assembling a proof from the segments it had just cleared:
a crash for multiples of 2^16, a proof of the last segment alone otherwise.
---
 src/vdf.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vdf.h b/src/vdf.h
index a4f7534..ce06cc1 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -557,15 +557,18 @@ class ProverManager {
                 std::cout << "Warning: Insufficient segments yet. Retrying in 1 minute\n";
                 proof_segments.clear();
                 proved_iters = 0;
-                this_thread::sleep_for(60s);
-                {
-                    std::lock_guard<std::mutex> lkg(proof_mutex);
-                    pending_iters.insert(iteration);
-                }
+                lk.lock();
+                proof_cv.wait_for(lk, 60s, [this] {
+                    return stopped.load();
+                });
+                pending_iters.insert(iteration);
             } else {
                 valid_proof = true;
             }
         }
+        if (!valid_proof) {
+            return Proof();
+        }
         if (!last_segment.is_empty) {
             proof_segments.emplace_back(last_segment);
         }
-- 
2.43.0


From 059e6444b41b1c475207791cef49727bb4ff1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 16/37] fix: ProveOneWesolowski never returns when stopped
 during proof generation

A stopped prover never becomes finished, so the wait for it had no end.
---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index ce06cc1..58057fb 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -329,9 +329,11 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     );
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
-    while (!prover.IsFinished()) {
+    while (!stopped && !prover.IsFinished()) {
         this_thread::sleep_for(1s);
     }
+    if (stopped)
+        return Proof();
     int d_bits = D.num_bits();
     std::vector<unsigned char> y_serialized;
     std::vector<unsigned char> proof_serialized;
-- 
2.43.0


From 67a12b0a006fa34446d00fdc4347cf26603a19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 17/37] fix: requests can miss the notification that proving
 has stopped

ProverManager::stop() notified without holding the mutexes of the condition
variables. A thread in Prove() that had already evaluated the predicate, but
was not waiting yet, missed it and never returned.
---
 src/vdf.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vdf.h b/src/vdf.h
index 58057fb..facb1eb 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -471,8 +471,16 @@ class ProverManager {
         }
         std::cout << "Segment provers finished.\n" << std::flush;
 
-        proof_cv.notify_all();
-        last_segment_cv.notify_all();
+        // A thread in Prove() may have seen 'stopped' unset and be about to wait. It holds the
+        // mutex until it waits, so it can't miss a notification sent after taking the mutex.
+        {
+            std::lock_guard<std::mutex> lk(proof_mutex);
+            proof_cv.notify_all();
+        }
+        {
+            std::lock_guard<std::mutex> lk(last_segment_mutex);
+            last_segment_cv.notify_all();
+        }
     }
 
     Proof Prove(uint64_t iteration) {
-- 
2.43.0


From f2a23bb08759936a15b4d57247f4b56b05a63e4b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 18/37] fix: 2-weso session writes past its stop signals after
 100 requests

---
 src/vdf_client.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 58dc0af..8a62a41 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -3,6 +3,7 @@
 #include "version.hpp"
 #include "vdf_client_session.h"
 #include <atomic>
+#include <deque>
 
 using boost::asio::ip::tcp;
 
@@ -252,7 +253,8 @@ void SessionTwoWeso(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         std::atomic<bool> stopped(false);
-        std::atomic<bool> stop_vector[100];
+        // A deque, so that adding a signal does not move the ones in use.
+        std::deque<std::atomic<bool> > stop_vector;
         std::vector<std::thread> threads;
         // (iteration, thread_id)
         std::set<std::pair<uint64_t, uint64_t> > seen_iterations;
@@ -301,9 +303,9 @@ void SessionTwoWeso(tcp::socket& sock) {
                 if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
                     seen_iterations.insert({iters, threads.size()});
                     PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector[threads.size()] = false;
+                    stop_vector.emplace_back(false);
                     threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector[threads.size()]),
+                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
                                       std::ref(sock)));
                     if (threads.size() > kMaxProcessesAllowed) {
                         PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-- 
2.43.0


From f674c294a098d29b036b3270895e576028c6b43f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 19/37] fix: 2-weso session compares iterations with the
 process limit

---
 src/vdf_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 8a62a41..22c6623 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -296,7 +296,7 @@ void SessionTwoWeso(tcp::socket& sock) {
                     PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
                     continue;
                 }
-                if (iters >= kMaxProcessesAllowed - 500000) {
+                if (iters >= kMaxItersAllowed - 500000) {
                     PrintInfo("Too big iter... ignoring");
                     continue;
                 }
-- 
2.43.0


From f67726d594dd3eff79358da4d6b117d1187866de Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 20/37] fix: client aborts when a session fails while its
 threads run

---
 src/vdf_client.cpp | 147 ++++++++++++++++++++++++++++-----------------
 1 file changed, 92 insertions(+), 55 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 22c6623..ebee8f7 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -52,31 +52,47 @@ void WriteProof(uint64_t iteration, Proof& result, tcp::socket& sock) {
     PrintInfo("Sent proof");
 }
 
-void CreateAndWriteProof(ProverManager& pm, uint64_t iteration, std::atomic<bool>& stop_signal, tcp::socket& sock) {
-    Proof result = pm.Prove(iteration);
-    if (stop_signal == true) {
-        PrintInfo("Got stop signal before completing the proof!");
-        return ;
+// A proof that can't be delivered (e.g. the peer is gone) must not take the process down.
+template <typename Function>
+void RunProofThread(Function&& function) {
+    try {
+        function();
+    } catch (std::exception& e) {
+        PrintInfo("Exception in proof thread: " + to_string(e.what()));
     }
-    WriteProof(iteration, result, sock);
+}
+
+void CreateAndWriteProof(ProverManager& pm, uint64_t iteration, std::atomic<bool>& stop_signal, tcp::socket& sock) {
+    RunProofThread([&] {
+        Proof result = pm.Prove(iteration);
+        if (stop_signal == true) {
+            PrintInfo("Got stop signal before completing the proof!");
+            return ;
+        }
+        WriteProof(iteration, result, sock);
+    });
 }
 
 void CreateAndWriteProofOneWeso(uint64_t iters, integer& D, form f, OneWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) {
-    Proof result = ProveOneWesolowski(iters, D, f, weso, stop_signal);
-    if (stop_signal) {
-        PrintInfo("Got stop signal before completing the proof!");
-        return ;
-    }
-    WriteProof(iters, result, sock);
+    RunProofThread([&] {
+        Proof result = ProveOneWesolowski(iters, D, f, weso, stop_signal);
+        if (stop_signal) {
+            PrintInfo("Got stop signal before completing the proof!");
+            return ;
+        }
+        WriteProof(iters, result, sock);
+    });
 }
 
 void CreateAndWriteProofTwoWeso(integer& D, form f, uint64_t iters, TwoWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) {
-    Proof result = ProveTwoWeso(D, f, iters, 0, weso, 0, stop_signal);
-    if (stop_signal) {
-        PrintInfo("Got stop signal before completing the proof!");
-        return ;
-    }
-    WriteProof(iters, result, sock);
+    RunProofThread([&] {
+        Proof result = ProveTwoWeso(D, f, iters, 0, weso, 0, stop_signal);
+        if (stop_signal) {
+            PrintInfo("Got stop signal before completing the proof!");
+            return ;
+        }
+        WriteProof(iters, result, sock);
+    });
 }
 
 void ConfigureSessionRuntime() {
@@ -175,28 +191,35 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         ProverManager pm(D, (FastAlgorithmCallback*)weso, fast_storage, segments, thread_count);
         pm.start();
 
-        // Tell client that I'm ready to get the challenges.
-        boost::asio::write(sock, boost::asio::buffer("OK", 2));
+        // The threads use this session's data: they have to end before it goes away, on errors as well.
+        auto stop_all = [&] {
+            stopped = true;
+            pm.stop();
+            vdf_worker.join();
+            for (int t = 0; t < threads.size(); t++) {
+                threads[t].join();
+            }
+            if (fast_storage != NULL) {
+                delete(fast_storage);
+            }
+            delete(weso);
+        };
 
-        while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
-            if (iters == 0) {
-                PrintInfo("Got stop signal!");
-                stopped = true;
-                pm.stop();
-                vdf_worker.join();
-                for (int t = 0; t < threads.size(); t++) {
-                    threads[t].join();
-                }
-                if (fast_storage != NULL) {
-                    delete(fast_storage);
-                }
-                delete(weso);
-            } else {
+        try {
+            // Tell client that I'm ready to get the challenges.
+            boost::asio::write(sock, boost::asio::buffer("OK", 2));
+
+            uint64_t iters;
+            while ((iters = ReadIteration(sock)) != 0) {
                 PrintInfo("Received iteration: " + to_string(iters));
                 threads.push_back(std::thread(CreateAndWriteProof, std::ref(pm), iters, std::ref(stopped), std::ref(sock)));
             }
+            PrintInfo("Got stop signal!");
+        } catch (...) {
+            stop_all();
+            throw;
         }
+        stop_all();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
@@ -224,15 +247,23 @@ void SessionOneWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, iter, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         std::thread th_prover(CreateAndWriteProofOneWeso, iter, std::ref(D), f, (OneWesolowskiCallback*)weso, std::ref(stopped), std::ref(sock));
-        iter = ReadIteration(sock);
-        while (iter != 0) {
-            std::cout << "Warning: did not receive stop signal\n";
+        auto stop_all = [&] {
+            stopped = true;
+            vdf_worker.join();
+            th_prover.join();
+            delete(weso);
+        };
+        try {
             iter = ReadIteration(sock);
+            while (iter != 0) {
+                std::cout << "Warning: did not receive stop signal\n";
+                iter = ReadIteration(sock);
+            }
+        } catch (...) {
+            stop_all();
+            throw;
         }
-        stopped = true;
-        vdf_worker.join();
-        th_prover.join();
-        delete(weso);
+        stop_all();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
@@ -262,19 +293,20 @@ void SessionTwoWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
 
-        while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
-            if (iters == 0) {
-                PrintInfo("Got stop signal!");
-                stopped = true;
-                for (int i = 0; i < threads.size(); i++)
-                    stop_vector[i] = true;
-                for (int t = 0; t < threads.size(); t++) {
-                    threads[t].join();
-                }
-                vdf_worker.join();
-                delete(weso);
-            } else {
+        auto stop_all = [&] {
+            stopped = true;
+            for (int i = 0; i < threads.size(); i++)
+                stop_vector[i] = true;
+            for (int t = 0; t < threads.size(); t++) {
+                threads[t].join();
+            }
+            vdf_worker.join();
+            delete(weso);
+        };
+
+        try {
+            uint64_t iters;
+            while ((iters = ReadIteration(sock)) != 0) {
                 uint64_t max_iter = 0;
                 uint64_t max_iter_thread_id = -1;
                 uint64_t min_iter = 1ULL << 62;
@@ -314,7 +346,12 @@ void SessionTwoWeso(tcp::socket& sock) {
                     }
                 }
             }
+            PrintInfo("Got stop signal!");
+        } catch (...) {
+            stop_all();
+            throw;
         }
+        stop_all();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
-- 
2.43.0


From 0606c3fc87ee834ad7af3f4222e88f7629c21805 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 21/37] fix: client computes with a discriminant it has not
 validated

---
 src/vdf_client.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index ebee8f7..9e4fde3 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -170,11 +170,21 @@ uint64_t ReadIteration(tcp::socket& sock) {
     return iters;
 }
 
+// The discriminant comes from the peer: the arithmetic can't handle any other kind or size.
+// With a composite one, it would run into forms whose coefficients have a common factor.
+integer SessionDiscriminant() {
+    integer D(disc);
+    if (!IsFormDiscriminant(D) || D.num_bits() > BQFC_MAX_D_BITS || !(-D).prime()) {
+        throw std::runtime_error("Invalid discriminant");
+    }
+    return D;
+}
+
 void SessionFastAlgorithm(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
     try {
-        integer D(disc);
+        integer D = SessionDiscriminant();
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -230,7 +240,7 @@ void SessionOneWeso(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
     try {
-        integer D(disc);
+        integer D = SessionDiscriminant();
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -275,7 +285,7 @@ void SessionTwoWeso(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
     try {
-        integer D(disc);
+        integer D = SessionDiscriminant();
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
-- 
2.43.0


From c6a2ab5a0bae9fc21b5d63fc88fee45e19630c0a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 22/37] fix: client acts on an unset session type when the peer
 disconnects

---
 src/vdf_client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 9e4fde3..09d5f54 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -399,6 +399,9 @@ int main(int argc, char* argv[]) try {
     boost::system::error_code error;
     char prover_type_buf[5];
     boost::asio::read(s, boost::asio::buffer(prover_type_buf, 1), error);
+    if (error) {
+        throw std::runtime_error("Failed to read prover type");
+    }
     // Check for "S" (simple weso), "N" (n-weso), or "T" (2-weso)
     if (prover_type_buf[0] == 'S') {
         SessionOneWeso(s);
-- 
2.43.0


From 62c4f1403d0323b75f670342550a1480cd452a03 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 23/37] hooks: mark each batch of the squaring loop

---
 src/vdf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vdf.h b/src/vdf.h
index facb1eb..2e6fd7b 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -248,6 +248,7 @@ void repeated_square(uint64_t iterations, form f, const integer& D, const intege
         }
 
         num_iterations+=actual_iterations;
+        CHIAVDF_VERIF_POINT("loop_batch", num_iterations, 0);
         if (num_iterations >= last_checkpoint) {
             weso->iterations = num_iterations;
 
-- 
2.43.0


From 9f841247587861421232768f89a10f211b2d7fcb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:03:06 +0000
Subject: [PATCH 24/37] fix: PLL entries outside the table are used

---
 src/hw/hw_vdf_client.cpp | 4 ++--
 src/hw/vdf_driver.cpp    | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73cefc5..28b318a 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -470,8 +470,8 @@ void event_loop(struct vdf_client *client)
             uint64_t elapsed = vdf_get_elapsed_us(client->drv->last_freq_update);
             if (elapsed / 1000000 >= client->opts.auto_freq_period) {
                 // Check and see what the next frequency would be, and if its <= max allowed frequency
-                double next_freq = pll_entries[client->drv->freq_idx + 1].freq;
-                if (next_freq <= client->opts.max_freq) {
+                uint32_t next_idx = client->drv->freq_idx + 1;
+                if (next_idx < VALID_PLL_FREQS && pll_entries[next_idx].freq <= client->opts.max_freq) {
                     adjust_hw_freq(client->drv, running_mask, 1);
                 } else {
                     LOG_INFO("Can't increase frequency, already at maximum");
diff --git a/src/hw/vdf_driver.cpp b/src/hw/vdf_driver.cpp
index 9709b20..614394c 100644
--- a/src/hw/vdf_driver.cpp
+++ b/src/hw/vdf_driver.cpp
@@ -329,6 +329,10 @@ bool VdfDriver::SetPLLFrequency(double frequency, uint32_t entry_index) {
     fprintf(stderr, "SetPLLFrequency frequency too high %lf\n", frequency);
     return false;
   }
+  if (entry_index >= VALID_PLL_FREQS) {
+    fprintf(stderr, "SetPLLFrequency no such entry %u\n", entry_index);
+    return false;
+  }
 
   if (!entry_index) {
     // Reset is necessary for the initial setting of frequency
-- 
2.43.0


From ac2c63e9f720db96b2ee506ef899fd22b024b82f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:03:06 +0000
Subject: [PATCH 25/37] fix: board voltages far outside the range wrap into it

---
 src/hw/vdf_driver.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hw/vdf_driver.cpp b/src/hw/vdf_driver.cpp
index 614394c..52a01d9 100644
--- a/src/hw/vdf_driver.cpp
+++ b/src/hw/vdf_driver.cpp
@@ -577,18 +577,18 @@ double VdfDriver::GetBoardVoltage() {
 }
 
 int VdfDriver::SetBoardVoltage(double voltage) {
-  uint8_t vid;
   double vr_factor = 100000.0;
-  uint32_t vr_slope = 625;
-  uint32_t vr_intercept = 24375;
-  vid =
-    (uint8_t)((((uint32_t)(voltage * vr_factor)) - vr_intercept) / vr_slope);
-
-  if ((vid < 0x29) || (vid > 0x79)) {
-    fprintf(stderr, "SetBoardVoltage illegal vid %d for voltage %1.3f\n",
-            vid, voltage);
+  double vr_slope = 625.0;
+  double vr_intercept = 24375.0;
+  // Check the range before narrowing, other values would wrap into it
+  double level = (floor(voltage * vr_factor) - vr_intercept) / vr_slope;
+
+  if (!(level >= 0x29 && level < 0x7a)) {
+    fprintf(stderr, "SetBoardVoltage illegal vid %f for voltage %1.3f\n",
+            level, voltage);
     return 1;
   }
+  uint8_t vid = (uint8_t)level;
 
   int ret_val = I2CWriteReg(VR_I2C_ADDR, 0x8, 0xe4); // Fixed compensation value
   ret_val |= I2CWriteReg(VR_I2C_ADDR, 0x7, vid);     // Voltage value
-- 
2.43.0


From 0306fb41f1d481eb606ee759cdc2ce862e846d20 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:11:48 +0000
Subject: [PATCH 26/37] fix: hardware proof threads race on values and finished
 proofs

---
 src/hw/hw_proof.cpp | 53 +++++++++++++++++++++++++++++++--------------
 src/hw/hw_proof.hpp |  2 +-
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index c6e1bec..de47c7b 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -99,6 +99,7 @@ void hw_proof_print_stats(struct vdf_state *vdf, uint64_t elapsed_us, bool detai
 
 static const size_t g_values_mult = 1UL << 12;
 
+/* Called with valid_values_mtx locked */
 form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
 {
     size_t idx = pos / g_values_mult;
@@ -116,25 +117,40 @@ form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
     return &vdf->values[idx][pos % g_values_mult];
 }
 
+static bool hw_proof_value_valid(struct vdf_state *vdf, size_t pos)
+{
+    return vdf->valid_values[pos / 8] & (1 << (pos % 8));
+}
+
+/* A valid value is never written again, so it can be used without the lock */
+static form *hw_proof_get_value(struct vdf_state *vdf, size_t pos)
+{
+    std::lock_guard<std::mutex> lk(vdf->valid_values_mtx);
+    return hw_proof_value_valid(vdf, pos) ? hw_proof_value_at(vdf, pos) : NULL;
+}
+
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos)
 {
     size_t pos = vdf->cur_iters / vdf->interval;
+    form *f;
 
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!(f = hw_proof_get_value(vdf, pos))) {
         pos--;
     }
     *out_pos = pos;
-    return hw_proof_value_at(vdf, pos);
+    return f;
 }
 
-void hw_proof_add_intermediate(struct vdf_state *vdf, struct vdf_value *val, size_t pos)
+void hw_proof_add_intermediate(struct vdf_state *vdf, const form &f, size_t pos)
 {
-    if (val) {
-        hw_proof_get_form(hw_proof_value_at(vdf, pos), vdf, val);
+    std::lock_guard<std::mutex> lk(vdf->valid_values_mtx);
+
+    /* After a restart, the same value can be computed twice */
+    if (hw_proof_value_valid(vdf, pos)) {
+        return;
     }
-    vdf->valid_values_mtx.lock();
+    *hw_proof_value_at(vdf, pos) = f;
     vdf->valid_values[pos / 8] |= 1 << (pos % 8);
-    vdf->valid_values_mtx.unlock();
     vdf->done_values++;
 }
 
@@ -175,8 +191,7 @@ void hw_proof_calc_values(struct vdf_state *vdf, struct vdf_work *work, int thr_
                 abort();
             }
 
-            *hw_proof_value_at(vdf, pos) = f;
-            hw_proof_add_intermediate(vdf, NULL, pos);
+            hw_proof_add_intermediate(vdf, f, pos);
 
             next_iters += vdf->interval;
         }
@@ -252,6 +267,7 @@ void hw_proof_dec_ref(struct vdf_state *vdf, std::vector<uint16_t> &idxs)
     std::vector<uint16_t> proofs_to_del;
     int len = idxs.size();
     int last_proof_idx = vdf->proofs.size() - 1;
+    std::lock_guard<std::mutex> lk(vdf->proofs_resize_mtx);
 
     for (int i = 0; i < len; i++) {
         uint16_t idx = idxs[i];
@@ -493,7 +509,7 @@ void hw_proof_wait_values(struct vdf_state *vdf, bool finish_work)
 
 int hw_proof_wait_value(struct vdf_state *vdf, size_t pos)
 {
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_get_value(vdf, pos)) {
         vdf_usleep(100000);
         if (vdf->stopping) {
             return -1;
@@ -519,7 +535,10 @@ void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val)
     bool print_stats = false;
 
     if (val->iters == end_iters) {
-        hw_proof_add_intermediate(vdf, val, val->iters / interval);
+        form f;
+
+        hw_proof_get_form(&f, vdf, val);
+        hw_proof_add_intermediate(vdf, f, val->iters / interval);
         if (end_iters) {
             end_iters -= interval;
         }
@@ -580,9 +599,9 @@ class HwProver : public ParallelProver {
         pos += pos_offset;
         if (hw_proof_wait_value(vdf, pos)) {
             // Provide arbitrary value when stopping - proof won't be computed
-            return vdf->values[0][0];
+            return *hw_proof_get_value(vdf, 0);
         }
-        return *hw_proof_value_at(vdf, pos);
+        return *hw_proof_get_value(vdf, pos);
     }
 
     void start() {
@@ -655,8 +674,8 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
         LOG_INFO("VDF %d: Proof stopped", vdf->idx);
         goto out;
     }
-    x = *hw_proof_value_at(vdf, start_pos);
-    y = *hw_proof_value_at(vdf, pos);
+    x = *hw_proof_get_value(vdf, start_pos);
+    y = *hw_proof_get_value(vdf, pos);
     if (!y.check_valid(vdf->D)) {
         LOG_ERROR("VDF %d: invalid form at pos=%lu", vdf->idx, pos);
         abort();
@@ -725,8 +744,9 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
 
 out:
     if (thr_idx < vdf->max_aux_threads) {
-        vdf->aux_threads_busy &= ~(1UL << thr_idx);
+        /* The state may be gone once this thread is not busy */
         vdf->n_proof_threads -= PARALLEL_PROVER_N_THREADS;
+        vdf->aux_threads_busy &= ~(1UL << thr_idx);
     }
 }
 
@@ -745,6 +765,7 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
         }
     }
 #endif
+    std::lock_guard<std::mutex> lk(vdf->proofs_resize_mtx);
     if (!vdf->done_proofs.empty()) {
         for (size_t i = 0; i < vdf->done_proofs.size(); i++) {
             uint16_t idx = vdf->done_proofs[i];
diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 3668413..2a89c9f 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -86,7 +86,7 @@ struct vdf_state {
     uint8_t max_aux_threads;
     uint8_t max_proof_threads;
     bool completed;
-    bool stopping;
+    std::atomic<bool> stopping;
     bool init_done;
 };
 
-- 
2.43.0


From 4b97ffef888c67a0a00f867181b63ef2999551d2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:11:48 +0000
Subject: [PATCH 27/37] fix: hardware values with a negative coefficient or
 past the target are accepted

---
 src/hw/hw_proof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index de47c7b..dd89d75 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -42,7 +42,7 @@ int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val)
     }
     vdf->n_skipped = 0;
 
-    if (mpz_sgn(val->a) == 0) {
+    if (mpz_sgn(val->a) <= 0 || val->iters / vdf->interval > vdf->target_iters / vdf->interval) {
         report_bad_vdf_value(vdf, val);
         return -1;
     }
-- 
2.43.0


From d13d2f435caae375351e9383896fa678438bc649 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:11:48 +0000
Subject: [PATCH 28/37] fix: hardware proof requests are ignored when no new
 values arrive

---
 src/hw/hw_proof.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index dd89d75..9a7c5fa 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -765,6 +765,9 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
         }
     }
 #endif
+    /* Requests and work can be waiting for a free thread while no new values arrive */
+    hw_proof_process_work(vdf);
+
     std::lock_guard<std::mutex> lk(vdf->proofs_resize_mtx);
     if (!vdf->done_proofs.empty()) {
         for (size_t i = 0; i < vdf->done_proofs.size(); i++) {
-- 
2.43.0


From 15fc057fbaca6429430e9a782a01b7af8c0c3f9b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:12:37 +0000
Subject: [PATCH 29/37] fix: hardware proofs use an unchecked discriminant and
 initial form

---
 src/hw/hw_proof.cpp | 30 +++++++++++++++++++++++-------
 src/hw/hw_proof.hpp |  2 +-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 9a7c5fa..4742afd 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -796,11 +796,31 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
     return -1;
 }
 
-void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx)
+static bool hw_proof_valid_discriminant(mpz_t D)
+{
+    /* The arithmetic can't handle any other kind or size */
+    return mpz_sgn(D) < 0 && mpz_fdiv_ui(D, 8) == 1 &&
+            mpz_sizeinbase(D, 2) <= BQFC_MAX_D_BITS && mpz_probab_prime_p(D, 50);
+}
+
+int init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx)
 {
-    //int ret;
     //struct vdf_value initial;
     size_t num_values;
+
+    if (mpz_set_str(vdf->D.impl, d_str, 0) || !hw_proof_valid_discriminant(vdf->D.impl)) {
+        LOG_ERROR("VDF %d: Invalid discriminant", idx);
+        return -1;
+    }
+    init_vdf_value(&vdf->last_val);
+    if (bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
+                BQFC_FORM_SIZE, mpz_sizeinbase(vdf->D.impl, 2), false) ||
+            verify_vdf_value(vdf, &vdf->last_val)) {
+        LOG_ERROR("VDF %d: Invalid initial form", idx);
+        clear_vdf_value(&vdf->last_val);
+        return -1;
+    }
+
     vdf->cur_iters = 0;
     vdf->iters_offset = 0;
     vdf->done_values = 1;
@@ -830,7 +850,6 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
         vdf->max_proof_threads = opts->max_proof_threads;
     }
 
-    mpz_set_str(vdf->D.impl, d_str, 0);
     mpz_set(vdf->L.impl, vdf->D.impl);
     mpz_neg(vdf->L.impl, vdf->L.impl);
     mpz_root(vdf->L.impl, vdf->L.impl, 4);
@@ -842,14 +861,11 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
     //mpz_init_set_ui(initial.a, 2);
     //mpz_init_set_ui(initial.b, 1);
     //initial.iters = 0;
-    init_vdf_value(&vdf->last_val);
-    // TODO: verify validity of initial form
-    bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
-            BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false);
     hw_proof_get_form(hw_proof_value_at(vdf, 0), vdf, &vdf->last_val);
     vdf->valid_values[0] = 1 << 0;
     //vdf->raw_values.push_back(initial);
     vdf->init_done = true;
+    return 0;
 }
 
 void clear_vdf_state(struct vdf_state *vdf)
diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 2a89c9f..6b94dd8 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -97,7 +97,7 @@ void hw_stop_proof(struct vdf_state *vdf);
 void hw_request_proof(struct vdf_state *vdf, uint64_t iters, bool is_chkp);
 void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof *out_proof, uint8_t thr_idx);
 int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **proof);
-void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *params, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx);
+int init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *params, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx);
 void clear_vdf_state(struct vdf_state *vdf);
 
 #endif // HW_PROOF_H
-- 
2.43.0


From 6bdb55cafdfa5a3930744093e550356913169201 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:22:41 +0000
Subject: [PATCH 30/37] fix: hardware client dies when a session fails

---
 src/hw/hw_vdf_client.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 28b318a..d7032e7 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -175,6 +175,8 @@ void init_vdf_client(struct vdf_client *client)
             continue;
         }
         client->conns[i].vdf.idx = i;
+        client->conns[i].vdf.cur_iters = 0;
+        client->conns[i].vdf.init_done = false;
         client->conns[i].sock = kInvalidSocket;
         memset(client->conns[i].read_buf, 0, sizeof(client->conns[i].read_buf));
         client->conns[i].buf_pos = 0;
@@ -195,7 +197,11 @@ void clear_vdf_client(struct vdf_client *client)
 void stop_conn(struct vdf_client *client, struct vdf_conn *conn)
 {
     if (conn->sock != kInvalidSocket) {
-        write_data(conn, "STOP", 4);
+        try {
+            write_data(conn, "STOP", 4);
+        } catch (const std::exception &e) {
+            LOG_ERROR("VDF %d: %s", conn->vdf.idx, e.what());
+        }
     }
     if (conn->vdf.init_done) {
         hw_stop_proof(&conn->vdf);
@@ -417,7 +423,13 @@ void event_loop(struct vdf_client *client)
             if (!(client->opts.vdfs_mask & (1 << i))) {
                 continue;
             }
-            handle_conn(client, &client->conns[i]);
+            try {
+                handle_conn(client, &client->conns[i]);
+            } catch (const std::exception &e) {
+                LOG_ERROR("VDF %d: %s", i, e.what());
+                stop_conn(client, &client->conns[i]);
+                close_conn(&client->conns[i]);
+            }
             if (client->conns[i].state == RUNNING) {
                 running_mask |= 1 << i;
             }
@@ -736,6 +748,8 @@ int hw_vdf_client_main(int argc, char **argv)
     sa.sa_handler = signal_handler;
     sigaction(SIGINT, &sa, NULL);
     sigaction(SIGTERM, &sa, NULL);
+    /* The peer can be gone when writing */
+    signal(SIGPIPE, SIG_IGN);
 #endif
 
     event_loop(&client);
-- 
2.43.0


From 8661d7e5b0bcc537d7887cc1c72de50897049ae9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:22:41 +0000
Subject: [PATCH 31/37] fix: hardware client misreads malformed and partial
 messages

---
 src/hw/hw_vdf_client.cpp | 46 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index d7032e7..56193b2 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -253,38 +253,40 @@ void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
 {
     char *buf = conn->read_buf;
-    char iters_size_buf[3] = {0}, iters_buf[16];
+    char iters_size_buf[3] = {0}, iters_buf[17];
     uint64_t iters;
     uint32_t bytes = conn->buf_pos, iters_size;
 
-    while (bytes) {
+    while (bytes >= 2) {
         memcpy(iters_size_buf, buf, 2);
         iters_size = strtoul(iters_size_buf, NULL, 10);
-        if (iters_size > sizeof(iters_buf) || bytes < 2 + iters_size) {
+        if (iters_size >= sizeof(iters_buf)) {
             LOG_ERROR("Bad iters data size: %u", bytes);
             throw std::runtime_error("Bad data size");
         }
+        if (bytes < 2 + iters_size) {
+            /* Expecting the rest of the request */
+            break;
+        }
         //buf[2 + iters_size] = '\0';
         memcpy(iters_buf, &buf[2], iters_size);
         iters_buf[iters_size] = '\0';
         iters = strtoul(iters_buf, NULL, 10);
 
+        bytes -= 2 + iters_size;
+        buf += 2 + iters_size;
+
         if (iters) {
             LOG_DEBUG("VDF %d: Requested proof for iters=%llu", conn->vdf.idx, (unsigned long long)iters);
             hw_request_proof(&conn->vdf, iters, false);
         } else {
             LOG_INFO("VDF %d: Stop requested", conn->vdf.idx);
             stop_conn(client, conn);
-            bytes -= 2 + iters_size;
             break;
         }
-
-        bytes -= 2 + iters_size;
-        buf += 2 + iters_size;
-    }
-    if (!bytes) {
-        conn->buf_pos = 0;
     }
+    memmove(conn->read_buf, buf, bytes);
+    conn->buf_pos = bytes;
     if (!conn->vdf.req_proofs.empty()) {
         size_t n_proofs = conn->vdf.req_proofs.size();
         char iters_str[100];
@@ -357,9 +359,9 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
 
     if (conn->state == WAITING) {
         uint64_t d_size;
-        char d_str[350];
+        char d_str[350], d_size_buf[4] = {0};
         uint64_t n_iters = 2000UL * 1000 * 1000;
-        uint8_t *init_form;
+        uint8_t init_form[BQFC_FORM_SIZE] = {0}, form_size;
 
         bytes = read_data(client, conn);
         if (bytes < 5) {
@@ -371,20 +373,30 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
             throw std::runtime_error("Bad initial data from timelord");
         }
 
-        d_size = strtoul(&buf[1], NULL, 10);
+        memcpy(d_size_buf, &buf[1], 3);
+        d_size = strtoul(d_size_buf, NULL, 10);
+        if (d_size >= sizeof(d_str)) {
+            throw std::runtime_error("Bad discriminant size");
+        }
         if ((uint64_t)bytes < 4 + d_size + 1) {
             /* Expecting initial form after discriminant */
             return;
         }
         memcpy(d_str, &buf[4], d_size);
         d_str[d_size] = '\0';
-        if ((uint64_t)bytes != 4 + d_size + 1 + buf[4 + d_size]) {
+        form_size = buf[4 + d_size];
+        if (form_size > sizeof(init_form) || (uint64_t)bytes > 4 + d_size + 1 + form_size) {
             LOG_ERROR("Bad data size: %d", bytes);
             throw std::runtime_error("Bad data size");
         }
-
-        init_form = (uint8_t *)&buf[4 + d_size + 1];
-        init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx);
+        if ((uint64_t)bytes < 4 + d_size + 1 + form_size) {
+            /* Expecting the rest of the form */
+            return;
+        }
+        memcpy(init_form, &buf[4 + d_size + 1], form_size);
+        if (init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx) < 0) {
+            throw std::runtime_error("Bad challenge");
+        }
         start_hw_vdf(client->drv, vdf->D.impl, vdf->last_val.a, vdf->last_val.b,
                 vdf->target_iters, vdf->idx);
         write_data(conn, "OK", 2);
-- 
2.43.0


From 9c315772eca99b6a51ecb5cb4e1545ce68e22c87 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:22:41 +0000
Subject: [PATCH 32/37] fix: hardware client truncates answers when the socket
 is full

---
 src/hw/hw_vdf_client.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 56193b2..646dd8c 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -243,10 +243,22 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
 
 void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 {
-    int bytes = vdf_socket_write(conn->sock, buf, size);
-    if (bytes < 0) {
-        perror("write");
-        throw std::runtime_error("Write error");
+    uint32_t n_waits = 0;
+
+    while (size) {
+        int bytes = vdf_socket_write(conn->sock, buf, size);
+        if (bytes < 0) {
+            if (vdf_socket_would_block() && n_waits < 1000) {
+                /* The peer is slow to read */
+                vdf_usleep(1000);
+                n_waits++;
+                continue;
+            }
+            perror("write");
+            throw std::runtime_error("Write error");
+        }
+        buf += bytes;
+        size -= bytes;
     }
 }
 
-- 
2.43.0


From a7116b6d5f6b7c0a2be653255babb2e90aca5f0b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:22:41 +0000
Subject: [PATCH 33/37] fix: hardware client leaks a socket on each failed
 connection

---
 src/hw/hw_vdf_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 646dd8c..eaa1c78 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -146,6 +146,10 @@ void init_conn(struct vdf_conn *conn, uint32_t ip, int port)
     ret = connect(conn->sock, (struct sockaddr *)&sa, sizeof(sa));
     if (ret < 0) {
         perror("connect");
+        if (conn->sock != kInvalidSocket) {
+            vdf_socket_close(conn->sock);
+            conn->sock = kInvalidSocket;
+        }
         vdf_sleep(1);
         return;
     }
-- 
2.43.0


From 17bd25e6668e10138bd2fbfe9a1348a0fa061d48 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:22:41 +0000
Subject: [PATCH 34/37] fix: hardware values are decoded after a failed read

---
 src/hw/hw_interface.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hw/hw_interface.cpp b/src/hw/hw_interface.cpp
index 129c6c6..25c8c15 100644
--- a/src/hw/hw_interface.cpp
+++ b/src/hw/hw_interface.cpp
@@ -180,13 +180,14 @@ int read_hw_status(ChiaDriver *drv, uint8_t idx_mask, struct vdf_value *values)
 
     for (int i = 0; i < N_HW_VDFS; i++) {
         uint8_t *job;
+        int ret;
         struct vdf_value *val = &values[i];
 
         if (i == 0 && idx_mask & (HW_VDF_TEMP_FLAG | (1 << i))) {
-            drv->ftdi.Read(0x300000, read_status, HW_VDF_STATUS_SIZE + 20);
+            ret = drv->ftdi.Read(0x300000, read_status, HW_VDF_STATUS_SIZE + 20);
             job = read_status + 20;
 
-            if (idx_mask & HW_VDF_TEMP_FLAG) {
+            if (!ret && (idx_mask & HW_VDF_TEMP_FLAG)) {
                 uint32_t temp_code;
                 drv->read_bytes(4, 0, read_status, temp_code);
                 double temp = drv->ValueToTemp(temp_code);
@@ -194,14 +195,17 @@ int read_hw_status(ChiaDriver *drv, uint8_t idx_mask, struct vdf_value *values)
                         temp, pll_entries[drv->freq_idx].freq, drv->freq_idx);
             }
         } else if (idx_mask & (1 << i)) {
-            drv->ftdi.Read(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + (0x10000 * i),
-                           read_status, HW_VDF_STATUS_SIZE);
+            ret = drv->ftdi.Read(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + (0x10000 * i),
+                                 read_status, HW_VDF_STATUS_SIZE);
             job = read_status;
         } else {
             continue;
         }
 
-        if (idx_mask & (1 << i)) {
+        if (ret) {
+            /* No value was read */
+            val->iters = 0;
+        } else if (idx_mask & (1 << i)) {
             drv->DeserializeJob(job, job_id, val->iters, val->a, val->b);
             LOG_DEBUG("VDF %d: Got iters=%lu", i, val->iters);
         }
-- 
2.43.0


From 8f29709a099053c8237be1db5d72c8272fbb2333 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:22:41 +0000
Subject: [PATCH 35/37] fix: emulated device restarts and exits while its job
 runs

---
 src/hw/emu_runner.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hw/emu_runner.cpp b/src/hw/emu_runner.cpp
index 336ab1a..c037524 100644
--- a/src/hw/emu_runner.cpp
+++ b/src/hw/emu_runner.cpp
@@ -102,8 +102,6 @@ void run_job(int i)
 
     LOG_INFO("Emu %d: Starting run for %lu iters", i, st->target_iter);
 
-    st->error.store(false, std::memory_order_release);
-    st->running.store(true, std::memory_order_release);
     while (!st->stopping.load(std::memory_order_acquire) && st->cur_iter < st->target_iter) {
         nudupl_form(qf2, st->qf, st->d, st->l);
         reducer.reduce(qf2);
@@ -137,6 +135,8 @@ static void start_job(int i)
 
     LOG_INFO("Emu %d: Starting job", i);
     init_state(states[i], &g_job_regs[i]);
+    states[i]->error.store(false, std::memory_order_release);
+    states[i]->running.store(true, std::memory_order_release);
     std::thread(job_thread, i).detach();
     //usleep(100000);
 }
@@ -346,6 +346,10 @@ __attribute__((destructor)) void emu_shutdown(void)
 {
     for (int i = 0; i < N_VDFS; i++) {
         if (states[i]) {
+            states[i]->stopping.store(true, std::memory_order_release);
+            while (states[i]->running.load(std::memory_order_acquire)) {
+                vdf_usleep(1000);
+            }
             clear_state(states[i]);
             delete states[i];
             states[i] = NULL;
-- 
2.43.0


From d9774d65a6999b5313b1ad90aa64c3f336cd0d72 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:37:43 +0000
Subject: [PATCH 36/37] fix: hardware client takes option values outside their
 range

A frequency or voltage of NaN passes both comparisons, and thread counts and
VDF masks are cut down to 8 bits before they are checked: '--freq nan' runs
the chip at the lowest PLL entry, '--vdf-threads 258' runs two threads.
---
 src/hw/hw_vdf_client.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index eaa1c78..0a8523f 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -532,6 +532,9 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
     int argi = 1;
     int positional_count = 0;
     const char *positionals[2] = {nullptr, nullptr};
+    /* Range-checked before being stored in the narrower fields of opts */
+    unsigned long long vdfs_mask = 0, max_aux_threads = HW_VDF_DEFAULT_MAX_AUX_THREADS;
+    unsigned long long max_proof_threads = 0;
 
     opts->voltage = HW_VDF_DEF_VOLTAGE;
     opts->freq = HW_VDF_DEF_FREQ;
@@ -623,11 +626,11 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
             }
 #endif
         } else if (!strcmp(name, "vdfs-mask")) {
-            opts->vdfs_mask = strtoul(value, NULL, 0);
+            vdfs_mask = strtoull(value, NULL, 0);
         } else if (!strcmp(name, "vdf-threads")) {
-            opts->vpo.max_aux_threads = strtoul(value, NULL, 0);
+            max_aux_threads = strtoull(value, NULL, 0);
         } else if (!strcmp(name, "proof-threads")) {
-            opts->vpo.max_proof_threads = strtoul(value, NULL, 0);
+            max_proof_threads = strtoull(value, NULL, 0);
         } else if (!strcmp(name, "auto-freq-period")) {
             opts->auto_freq = true;
             opts->auto_freq_period = strtoul(value, NULL, 0);
@@ -650,11 +653,11 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
         LOG_SIMPLE("Invalid freq or voltage specified");
         return -1;
     }
-    if (opts->freq < 200 || opts->freq > 2200) {
+    if (!(opts->freq >= 200 && opts->freq <= 2200)) {
         LOG_SIMPLE("Frequency is outside the allowed range");
         return -1;
     }
-    if (opts->voltage < 0.7 || opts->voltage > 1.0) {
+    if (!(opts->voltage >= 0.7 && opts->voltage <= 1.0)) {
         LOG_SIMPLE("Voltage is outside the allowed range");
         return -1;
     }
@@ -662,19 +665,22 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
         LOG_SIMPLE("Invalid IP address specified");
         return -1;
     }
-    if (opts->vdfs_mask > 7) {
+    if (vdfs_mask > 7) {
         LOG_SIMPLE("Invalid VDFs mask");
         return -1;
     }
-    if (opts->vpo.max_aux_threads < 2 || opts->vpo.max_aux_threads > HW_VDF_MAX_AUX_THREADS) {
+    if (max_aux_threads < 2 || max_aux_threads > HW_VDF_MAX_AUX_THREADS) {
         LOG_SIMPLE("Number of VDF threads must be between 2 and %d",
                 HW_VDF_MAX_AUX_THREADS);
         return -1;
     }
-    if (opts->vpo.max_proof_threads >= opts->vpo.max_aux_threads) {
+    if (max_proof_threads >= max_aux_threads) {
         LOG_SIMPLE("Number of proof threads must be less than VDF threads");
         return -1;
     }
+    opts->vdfs_mask = static_cast<uint8_t>(vdfs_mask);
+    opts->vpo.max_aux_threads = static_cast<uint8_t>(max_aux_threads);
+    opts->vpo.max_proof_threads = static_cast<uint8_t>(max_proof_threads);
     if (opts->auto_freq && opts->auto_freq_period < 10) {
         LOG_SIMPLE("Invalid auto freq period");
         return -1;
-- 
2.43.0


From 42fc800c33dde388ed5f5126dcbee6cf13f0111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:58 +0000
Subject: [PATCH 37/37] fix: assembly functions keep their scratch area below
 the stack's red zone

Anything more than 128 bytes below RSP may be overwritten by a signal handler at any time. The scratch area of the gcd
functions was the kilobyte below RSP, so a handled signal changed their state and ended in wrong values or crashes. Reserve
it instead, as on Windows.
---
 src/asm_types.h |  9 ++++-----
 src/asm_vm.h    | 15 +++++++++------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/asm_types.h b/src/asm_types.h
index f7ba93a..cbf4c23 100644
--- a/src/asm_types.h
+++ b/src/asm_types.h
@@ -463,16 +463,15 @@ struct reg_spill {
 #ifdef CHIA_WINDOWS
         return value + 8;
 #else
-        return value-spill_bytes;
+        return value;
 #endif
     }
 
-    //this is negative
     uint64 get_rsp_offset_uint64() const {
 #ifdef CHIA_WINDOWS
         return uint64(value + 8);
 #else
-        return uint64(value-spill_bytes);
+        return uint64(value);
 #endif
     }
 
@@ -484,7 +483,7 @@ struct reg_spill {
 #ifdef CHIA_WINDOWS
         return str( "[RSP+#]", to_hex(value + 8) );
 #else
-        return str( "[RSP+#]", to_hex(value-spill_bytes) );
+        return str( "[RSP+#]", to_hex(value) );
 #endif
     }
 
@@ -494,7 +493,7 @@ struct reg_spill {
 #ifdef CHIA_WINDOWS
         m.bind_impl(n + "_rsp_offset", to_hex(value + 8));
 #else
-        m.bind_impl(n + "_rsp_offset", to_hex(value-spill_bytes));
+        m.bind_impl(n + "_rsp_offset", to_hex(value));
 #endif
     }
 
diff --git a/src/asm_vm.h b/src/asm_vm.h
index 4e8930b..09273c5 100644
--- a/src/asm_vm.h
+++ b/src/asm_vm.h
@@ -56,7 +56,7 @@ struct asm_function {
     bool d_return_error_code=true;
     bool d_windows_stack_args=true;
 
-    //the scratch area ends at RSP (i.e. the last byte is at address RSP-1)
+    //the scratch area starts at RSP (it is spill_bytes long)
     //RSP is 64-byte aligned
     //RSP must be preserved but all other registers can be changed
     //
@@ -167,12 +167,13 @@ struct asm_function {
             }
 #else
             // RSP'=RSP&(~63) ; this makes it 64-aligned and can only reduce its value
-            // RSP''=RSP'-64 ; still 64-aligned but now there is at least 64 bytes of unused stuff
-            // [RSP'']=RSP ; store old value in unused area
+            // RSP''=RSP'-64-spill_bytes ; still 64-aligned. the scratch area is at RSP'' so that a signal handler, which may
+            // use anything more than 128 bytes below the stack pointer, doesn't overwrite it
+            // [RSP''+spill_bytes]=RSP ; store old value in unused area above the scratch area
             APPEND_M(str( "MOV RAX, RSP" ));
             APPEND_M(str( "AND RSP, -64" )); //-64 equals ~63
-            APPEND_M(str( "SUB RSP, 64" ));
-            APPEND_M(str( "MOV [RSP], RAX" ));
+            APPEND_M(str( "SUB RSP, #", to_hex(64 + spill_bytes) ));
+            APPEND_M(str( "MOV [RSP+#], RAX", to_hex(spill_bytes) ));
 #endif
         }
     }
@@ -220,8 +221,10 @@ struct asm_function {
                 APPEND_M(str( "MOVDQU XMM14, [RSP+#]", to_hex(windows_xmm_save_base + 8 * windows_xmm_slot_bytes) ));
                 APPEND_M(str( "MOVDQU XMM15, [RSP+#]", to_hex(windows_xmm_save_base + 9 * windows_xmm_slot_bytes) ));
             }
-#endif
             APPEND_M(str( "MOV RSP, [RSP]" ));
+#else
+            APPEND_M(str( "MOV RSP, [RSP+#]", to_hex(spill_bytes) ));
+#endif
         }
         for (int x=pop_regs.size()-1;x>=0;--x) {
             APPEND_M(str( "POP #", pop_regs[x].name() ));
-- 
2.43.0

