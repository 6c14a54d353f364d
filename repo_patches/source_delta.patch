From 559d833b5ab825cc1c4f2a6d9f8341ab586ea23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 01/15] fix: CanBeHashedInto uses the largest hash_bits-bit
 value

The largest hash value is 2^hash_bits - 1; dividing 2^128 - 1 by 2^hash_bits
gives the largest (128 - hash_bits)-bit value instead, so unsafe moduli were
accepted (e.g. 2^40 + 1 with 48-bit hashes) and safe ones rejected.
---
 distributed_vector_ole/internal/scalar_helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..480f14a 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -131,7 +131,7 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value = (absl::uint128(1) << hash_bits) - 1;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +157,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value = (absl::uint128(1) << hash_bits) - 1;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From 211a8979905050dbe0244b6f42d5de5371775517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 02/15] fix: CanBeHashedInto rejects moduli with more residues
 than hash values

The ZZ_p version looked at the low 128 bits of the modulus only, so a modulus
above 2^128 could be reported as hashable (e.g. 2^139 + 1), and 2^128 itself was
reported hashable for every hash size.
---
 distributed_vector_ole/internal/scalar_helpers.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 480f14a..53e7343 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -123,11 +123,14 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     // Check that when reducing an absl::uint128 modulo T::modulus(), the result
     // is nearly uniform, i.e., the probability for any set of results is at
     // most 2^-statistical_security higher than in a uniform distribution.
+    if (NTL::NumBits(NTL::ZZ_p::modulus() - 1) > 128) {
+      return false;  // More residues than hash values.
+    }
     uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());
     uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);
     absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
-    if (modulus == 0) {  // Modulus is a multiple of 2**128
-      return true;
+    if (modulus == 0) {  // Modulus is 2**128
+      return hash_bits >= 128;
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-- 
2.43.0


From 38f0fc1b0c6886ed258394bab4dbd2ac770b7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 03/15] fix: round the AES generator's buffer up to whole
 blocks

An odd buffer size left the last element unfilled on every refresh, so
every buffer_size-th output was a constant.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..7decbf9 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -20,6 +20,8 @@ mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
   if (buffer_size < 2) {
     buffer_size = 2;
   }
+  // Each AES call produces two elements.
+  buffer_size += buffer_size % 2;
   AESUniformBitGenerator result(buffer_size);
   RETURN_IF_ERROR(result.seed(seed));
   return result;
-- 
2.43.0


From f58af9a2edad57210dc7b03a669bb40e0601ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 04/15] fix: read the AES generator's nonce without assuming
 alignment

Seeds are byte spans; loading the nonce through a uint128 pointer is
undefined for seeds that are not 16-byte aligned, and faults at -O1.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 7decbf9..0f9f230 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -1,5 +1,6 @@
 #include "distributed_vector_ole/aes_uniform_bit_generator.h"
 
+#include <cstring>
 #include <stdexcept>
 
 #include "absl/strings/str_cat.h"
@@ -37,8 +38,8 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
                &expanded_key_)) {  // Use first 16 bytes of seed as key.
     return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
   }
-  nonce_ = *(reinterpret_cast<const absl::uint128 *>(
-      seed.data() + 16));  // Use second 16 bytes of seed as nonce.
+  std::memcpy(&nonce_, seed.data() + 16,
+              sizeof(nonce_));  // Use second 16 bytes of seed as nonce.
   counter_ = 0;            // Reset counter.
   elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.
   return mpc_utils::OkStatus();
-- 
2.43.0


From a9a9084627e58b230f869d7538739662cc549ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 05/15] fix: keep refusing output once the AES generator's
 reseed interval is used up

The check ran after the buffer had been refilled, so a caller that caught
the exception got a whole buffer of further output under the old seed.
---
 .../aes_uniform_bit_generator.cpp              | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 0f9f230..7ffd862 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -48,10 +48,18 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
 AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
   int64_t buffer_size = static_cast<int64_t>(buffer_.size());
   if (elements_used_ >= buffer_size) {
+    int64_t num_blocks = buffer_size / 2;
+    // Check if we would exceed the reseed interval. Since the return type of
+    // operator() is required to be result_type, we have to throw an exception
+    // here.
+    if (counter_ + num_blocks > kReseedInterval) {
+      throw std::runtime_error(
+          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
+                       " calls to this AESUniformBitGenerator"));
+    }
     // Re-randomize the entire buffer using AES in counter mode. We use a
     // separate vector for the nonces which allows the CPU to pipeline calls to
     // AES_encrypt.
-    int64_t num_blocks = buffer_size / 2;
     std::vector<absl::uint128> nonces(num_blocks);
     for (int64_t i = 0; i < num_blocks; i++) {
       nonces[i] = nonce_;
@@ -63,14 +71,6 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     }
     elements_used_ = 0;
     counter_ += num_blocks;
-    // Check if we exceeded the reseed interval. Since the return type of
-    // operator() is required to be result_type, we have to throw an exception
-    // here.
-    if (counter_ > kReseedInterval) {
-      throw std::runtime_error(
-          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
-                       " calls to this AESUniformBitGenerator"));
-    }
   }
   result_type result = buffer_[elements_used_];
   elements_used_++;
-- 
2.43.0


From 8ff6813fb9af7cffe5933ed01e24f750c437af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 06/15] fix: GGMTree::Create returns an error for a negative
 arity

It allocated the key vector before validating the arity and threw
std::length_error instead of returning InvalidArgument.
---
 distributed_vector_ole/ggm_tree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..540dcca 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -60,7 +60,8 @@ class GGMTree {
   // Constructs a GGMTree from a single seed.
   static mpc_utils::StatusOr<std::unique_ptr<GGMTree>> Create(
       int arity, int64_t num_leaves, Block seed) {
-    std::vector<Block> keys(arity);
+    // Create() rejects trees with fewer than two keys.
+    std::vector<Block> keys(arity > 0 ? arity : 0);
     for (int i = 0; i < arity; i++) {
       RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), kBlockSize);
     }
-- 
2.43.0


From 0458447945c314f51f94e62e61eb93ce5e368888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 07/15] fix: GGM tree XORs levels with more than 2^31 nodes

The index into the level was narrowed to int.
---
 distributed_vector_ole/ggm_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..788c7cb 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -75,7 +75,7 @@ void XORBlocks(absl::Span<const GGMTree::Block> in,
 
     // The blocks in each batch can be XORed 1:1 onto the result.
     for (int block = 0; block < num_blocks; block++) {
-      int child = batch * batch_size + block;
+      int64_t child = batch * batch_size + block;
       out_data[block] ^= in_data[child];
     }
   }
-- 
2.43.0


From 7b0c4626fe85c4114c6511e8db3270765443c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 08/15] fix: CreateFromSiblingWiseXOR validates everything it
 indexes with

A negative missing index, a number of keys other than the arity, or more
levels than the tree has led to out-of-bounds accesses.
---
 distributed_vector_ole/ggm_tree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 788c7cb..fca8fb8 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -130,6 +130,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (num_leaves <= 0) {
     return mpc_utils::InvalidArgumentError("`num_leaves` must be positive");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   if (missing_index >= num_leaves) {
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
@@ -148,6 +152,9 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int64_t>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError("`keys` must have length `arity`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
@@ -166,6 +173,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     }
   }
   ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
+  if (static_cast<int64_t>(levels.size()) != num_levels) {
+    return mpc_utils::InvalidArgumentError(
+        "Dimensions passed in `sibling_wise_xors` do not match `num_leaves`");
+  }
   std::unique_ptr<GGMTree> tree = absl::WrapUnique(new GGMTree(
       std::move(levels), std::move(keys_copy), std::move(expanded_keys)));
   assert(tree->num_levels() == num_levels);
-- 
2.43.0


From bd01c60a8b9e6cdafc1c05ece03b9e4d698235cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 09/15] fix: add up the number of leaves in 64 bits in
 SendTrees

---
 distributed_vector_ole/all_but_one_random_ot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index 6c10b0d..3951972 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -158,7 +158,7 @@ AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
   int num_trees = static_cast<int>(num_leaves.size());
   // Check the modulus to satisfy statistical security.
   int64_t total_num_leaves =
-      std::accumulate(num_leaves.begin(), num_leaves.end(), 0);
+      std::accumulate(num_leaves.begin(), num_leaves.end(), int64_t{0});
   // Statistical security needed for each leaf to ensure that all leaves are
   // uniform.
   double statistical_security_per_leaf =
-- 
2.43.0


From d621a3f29780879741a8ee8aab789001cb11cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 10/15] fix: serialise the shared error status in ReceiveTrees'
 parallel loop

---
 distributed_vector_ole/all_but_one_random_ot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distributed_vector_ole/all_but_one_random_ot.cpp b/distributed_vector_ole/all_but_one_random_ot.cpp
index c98edae..f022009 100644
--- a/distributed_vector_ole/all_but_one_random_ot.cpp
+++ b/distributed_vector_ole/all_but_one_random_ot.cpp
@@ -121,6 +121,7 @@ AllButOneRandomOT::ReceiveTrees(absl::Span<const int64_t> num_leaves,
     if (status_or_tree.ok()) {
       trees[i] = std::move(status_or_tree.ValueOrDie());
     } else {
+#pragma omp critical
       status = status_or_tree.status();
     }
   }
-- 
2.43.0


From 79dc96ecddbbb5e303d79fc852a68a43ea96700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 11/15] fix: RunIndexProviderVectorOLE rejects negative and
 one-past-the-end indices

---
 distributed_vector_ole/mpfss_known_indices.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..5bb59b5 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,7 +190,8 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 ||
+        indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
-- 
2.43.0


From 9085c93be5eccb41052d35e32a318f261c48b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 12/15] fix: reject negative sizes in RunSender and RunReceiver

Once precomputation was done, a negative size passed the cache check and was
used to slice and resize the cache.
---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..895283d 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -537,6 +537,9 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
@@ -585,6 +588,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
-- 
2.43.0


From b2892940ece49e547fa5a9719a62114f95ca407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 13/15] fix: require a new precomputation after a failed one

When a second Precompute* call failed half way, *_precomputation_done_ stayed
set. The next Run* then expanded with whatever parameters and code generator
were left behind, e.g. the all-zero generator, and returned vectors whose u is
zero almost everywhere.
---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 895283d..34f922d 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -240,6 +240,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // The old state is gone from here on, even if one of the steps fails.
+  sender_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -303,6 +305,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // The old state is gone from here on, even if one of the steps fails.
+  receiver_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
-- 
2.43.0


From 33a7844052a694e78ff284f25357d0f0cfb98a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 14/15] fix: do not grow the receiver's cache before MPFSS has
 succeeded

If RunValueProviderVectorOLE failed, output_size uninitialised elements stayed
in the cache and were returned by the next RunReceiver.
---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 34f922d..9f5fa24 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -487,12 +487,12 @@ mpc_utils::Status DistributedVectorOLE<T>::ExpandReceiver(
   }
 
   // Compute MPFSS and expand seed, appending to the cache.
-  receiver_cached_.w.conservativeResize(receiver_cached_.w.size() +
-                                        output_size);
   Vector<T> v1(output_size);
   RETURN_IF_ERROR(mpfss_->RunValueProviderVectorOLE<T>(
       receiver_mpfss_seed_.delta, num_noise_indices_, receiver_mpfss_seed_.w,
       absl::MakeSpan(v1)));
+  receiver_cached_.w.conservativeResize(receiver_cached_.w.size() +
+                                        output_size);
   receiver_cached_.w.tail(output_size) =
       receiver_vole_seed_.w * code_generator_ + v1;
 
-- 
2.43.0


From 9610371ffaa717cad0a0f69cadd43d7fc7e57581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 15/15] fix: draw the halves of code generator elements in a
 specified order

Both parties must derive the same code from the shared seed, but the arguments
of MakeUint128 may be evaluated in any order, so that parties built with
different compilers computed different codes.
---
 distributed_vector_ole/distributed_vector_ole.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 9f5fa24..b0651da 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -400,7 +400,11 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeCommon(
                             output_size);
   for (int64_t i = 0; i < VOLEParameters::kCodeGeneratorNonzeros * output_size;
        i++) {
-    absl::uint128 random128 = absl::MakeUint128(rng(), rng());
+    // The order of evaluation of function arguments is unspecified, but both
+    // parties have to compute the same elements.
+    uint64_t random_high = rng();
+    uint64_t random_low = rng();
+    absl::uint128 random128 = absl::MakeUint128(random_high, random_low);
     random_elements[i] = ScalarHelper<T>::FromUint128(random128);
   }
 
-- 
2.43.0

