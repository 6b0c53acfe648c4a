From cb779c08fb40dfc8d22e87ce7f82b13e4101e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 1/6] fix: salsa20: wrap the block counter instead of
 overflowing after the last block

Generating the block at position u64::MAX through the block-level API
panicked on builds with overflow checks (chacha20 wraps there).
---
 salsa20/src/backends/soft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salsa20/src/backends/soft.rs b/salsa20/src/backends/soft.rs
index caf2693..7c3c0fd 100644
--- a/salsa20/src/backends/soft.rs
+++ b/salsa20/src/backends/soft.rs
@@ -22,7 +22,7 @@ impl<R: Unsigned> StreamCipherBackend for Backend<'_, R> {
     fn gen_ks_block(&mut self, block: &mut Block<Self>) {
         let res = run_rounds::<R>(&self.0.state);
 
-        self.0.set_block_pos(self.0.get_block_pos() + 1);
+        self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));
 
         for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
             chunk.copy_from_slice(&val.to_le_bytes());
-- 
2.43.0


From 36a3c22310624889205f6c83a5bed1a1f3b60ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 2/6] fix: chacha20: get_block_pos must not overflow once the
 counter has wrapped

With the buffer filled from one of the last four blocks of the stream the
core counter has already wrapped around, get_word_pos copes with that,
get_block_pos panicked (overflow checks on).
---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index d8c2824..6d31489 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -252,7 +252,9 @@ macro_rules! impl_chacha_rng {
                 let counter = self.core.core.get_block_pos();
                 let offset = self.core.word_offset();
                 if offset != 0 {
-                    counter - u64::from(BUF_BLOCKS) + offset as u64 / u64::from(BLOCK_WORDS)
+                    counter
+                        .wrapping_sub(u64::from(BUF_BLOCKS))
+                        .wrapping_add(offset as u64 / u64::from(BLOCK_WORDS))
                 } else {
                     counter
                 }
-- 
2.43.0


From 43f909b4ccf3f83bc0f8ceafaa59fdba82daefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 3/6] fix: chacha20: ChaChaCore::from_seed panicked for the
 Ietf variant

It always passed an 8-byte nonce, the Ietf variant takes 12 bytes.
---
 chacha20/src/rng.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 6d31489..9bcdc74 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -37,7 +37,8 @@ impl<R: Rounds, V: Variant> SeedableRng for ChaChaCore<R, V> {
 
     #[inline]
     fn from_seed(seed: Self::Seed) -> Self {
-        ChaChaCore::new_internal(&seed, &[0u8; 8])
+        // the nonce takes what the block counter leaves of the last state row
+        ChaChaCore::new_internal(&seed, &[0u8; 16][size_of::<V::Counter>()..])
     }
 }
 
-- 
2.43.0


From 2b108006da03b7612e75f4adaa4db84b205e53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 4/6] fix: chacha20: block generator of the Ietf variant must
 keep to its 32-bit counter

Generator::generate carried the counter of ChaChaCore<R, Ietf> into the first
nonce word on the soft and AVX2 backends (and half of the time on SSE2), so the
backends produced different blocks after the 32-bit counter wrapped.
---
 chacha20/src/backends/avx2.rs | 20 +++++++++++++++++---
 chacha20/src/backends/soft.rs |  4 +++-
 chacha20/src/backends/sse2.rs |  6 +++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/chacha20/src/backends/avx2.rs b/chacha20/src/backends/avx2.rs
index 2d7c3f5..497f8f7 100644
--- a/chacha20/src/backends/avx2.rs
+++ b/chacha20/src/backends/avx2.rs
@@ -93,11 +93,19 @@ where
         _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
     ];
     let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));
-    c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0));
+    c = match size_of::<V::Counter>() {
+        4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0)),
+        8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0)),
+        _ => unreachable!(),
+    };
     let mut ctr = [c; N];
     for i in 0..N {
         ctr[i] = c;
-        c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2));
+        c = match size_of::<V::Counter>() {
+            4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 2, 0, 0, 0, 2)),
+            8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2)),
+            _ => unreachable!(),
+        };
     }
     let mut backend = Backend::<R, V> {
         v,
@@ -188,7 +196,13 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
 
             let pb = PAR_BLOCKS as i32;
             for c in self.ctr.iter_mut() {
-                *c = _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)));
+                *c = match size_of::<V::Counter>() {
+                    4 => _mm256_add_epi32(*c, _mm256_set_epi32(0, 0, 0, pb, 0, 0, 0, pb)),
+                    8 => {
+                        _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)))
+                    }
+                    _ => unreachable!(),
+                };
             }
 
             let mut block_ptr = blocks.as_mut_ptr().cast::<__m128i>();
diff --git a/chacha20/src/backends/soft.rs b/chacha20/src/backends/soft.rs
index ed448d4..cb6294b 100644
--- a/chacha20/src/backends/soft.rs
+++ b/chacha20/src/backends/soft.rs
@@ -54,7 +54,9 @@ impl<R: Rounds, V: Variant> Backend<'_, R, V> {
             let mut ctr = (u64::from(self.0.state[13]) << 32) | u64::from(self.0.state[12]);
             ctr = ctr.wrapping_add(1);
             self.0.state[12] = ctr as u32;
-            self.0.state[13] = (ctr >> 32) as u32;
+            if size_of::<V::Counter>() == 8 {
+                self.0.state[13] = (ctr >> 32) as u32;
+            }
 
             buffer[block * BLOCK_WORDS as usize..(block + 1) * BLOCK_WORDS as usize]
                 .copy_from_slice(&res);
diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index f6479a1..5ab11d3 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -140,7 +140,11 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
         const _: () = assert!(4 * PAR_BLOCKS * size_of::<__m128i>() == size_of::<[u32; 64]>());
         unsafe {
             let res = rounds::<R, V>(&self.v);
-            self.v[3] = _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64));
+            self.v[3] = match size_of::<V::Counter>() {
+                4 => _mm_add_epi32(self.v[3], _mm_set_epi32(0, 0, 0, PAR_BLOCKS as i32)),
+                8 => _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64)),
+                _ => unreachable!(),
+            };
 
             let blocks_ptr = block.as_mut_ptr().cast::<__m128i>();
             for block in 0..PAR_BLOCKS {
-- 
2.43.0


From 3b90340bcccac164ac34a204bd58b3c42d09287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 5/6] fix: chacha20 SSE2 backend used an SSE4.1 instruction

---
 chacha20/src/backends/sse2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index 5ab11d3..7278a34 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -51,7 +51,8 @@ where
 
     state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        // `_mm_extract_epi32` would need SSE4.1
+        state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
     }
 }
 
@@ -130,7 +131,8 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    // `_mm_extract_epi32` would need SSE4.1
+    core.state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
 }
 
 #[cfg(feature = "rng")]
-- 
2.43.0


From f8d61b1d028ea46cf4e51c4509ff34066f5e100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 6/6] fix: chacha20: use the NEON backend on little-endian
 targets only

The backend stores whole vectors over the u32 state and the generator's u32
buffer, and mixes lane access with reinterpreted loads, which gives wrong
results on aarch64_be. Use the portable backend there.
---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 2 +-
 chacha20/src/rng.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index f6305b2..172c892 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -24,7 +24,7 @@ cfg_if! {
                 pub(crate) mod sse2;
             }
         }
-    } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+    } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
         pub(crate) mod neon;
     } else {
         pub(crate) mod soft;
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index dbf726c..b8ab51a 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -286,7 +286,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::inner::<R, _, V>(&mut self.state, f);
diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 9bcdc74..fc5d0af 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -81,7 +81,7 @@ impl<R: Rounds, V: Variant> Generator for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::rng_inner::<R, V>(self, buffer);
-- 
2.43.0

