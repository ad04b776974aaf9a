From 37992ec3525be71de5827d6e3821eac98bf5e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 1/7] fix: salsa20: wrap the block counter instead of
 overflowing at u64::MAX

Producing the keystream block at position 2^64-1 panicked with
'attempt to add with overflow' when overflow checks are enabled.
---
 salsa20/src/backends/soft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salsa20/src/backends/soft.rs b/salsa20/src/backends/soft.rs
index caf2693..7c3c0fd 100644
--- a/salsa20/src/backends/soft.rs
+++ b/salsa20/src/backends/soft.rs
@@ -22,7 +22,7 @@ impl<R: Unsigned> StreamCipherBackend for Backend<'_, R> {
     fn gen_ks_block(&mut self, block: &mut Block<Self>) {
         let res = run_rounds::<R>(&self.0.state);
 
-        self.0.set_block_pos(self.0.get_block_pos() + 1);
+        self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));
 
         for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
             chunk.copy_from_slice(&val.to_le_bytes());
-- 
2.43.0


From 9e7c61abea25cc6831bdaacf10da940a80befadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 2/7] fix: chacha20: RNG get_block_pos overflow after the block
 counter wraps

With a buffer refilled at block 2^64-4 or later the core counter is
smaller than BUF_BLOCKS and get_block_pos panicked when overflow checks
are enabled.
---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index d8c2824..6d31489 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -252,7 +252,9 @@ macro_rules! impl_chacha_rng {
                 let counter = self.core.core.get_block_pos();
                 let offset = self.core.word_offset();
                 if offset != 0 {
-                    counter - u64::from(BUF_BLOCKS) + offset as u64 / u64::from(BLOCK_WORDS)
+                    counter
+                        .wrapping_sub(u64::from(BUF_BLOCKS))
+                        .wrapping_add(offset as u64 / u64::from(BLOCK_WORDS))
                 } else {
                     counter
                 }
-- 
2.43.0


From ce110035e502b05a8d536cce9de2821798ea6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 3/7] fix: chacha20: ChaChaCore::<_, Ietf>::from_seed always
 panicked

The IV passed to new_internal had a fixed length of 8 bytes while the
IETF variant, whose counter takes one state word, needs 12.
---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 6d31489..1840b2c 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -37,7 +37,9 @@ impl<R: Rounds, V: Variant> SeedableRng for ChaChaCore<R, V> {
 
     #[inline]
     fn from_seed(seed: Self::Seed) -> Self {
-        ChaChaCore::new_internal(&seed, &[0u8; 8])
+        // The counter and the IV together occupy the last four state words
+        let iv_len = 16 - size_of::<V::Counter>();
+        ChaChaCore::new_internal(&seed, &[0u8; 12][..iv_len])
     }
 }
 
-- 
2.43.0


From 2bf4441f0e24a1c063d07d4915db8dfe2d67aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 4/7] fix: chacha20: build with `chacha20_backend="avx512"`
 alone

The README documents that forcing the AVX-512 backend only needs the AVX-512
target features, and the RNG already keyed on `chacha20_backend = "avx512"`
alone, but the cipher also required `chacha20_avx512` (which only concerns
autodetection), so that configuration did not compile.
---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index f6305b2..dc12221 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -7,7 +7,7 @@ cfg_if! {
         pub(crate) mod soft;
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 pub(crate) mod avx512;
                 // AVX-2 backend needed for RNG if enabled
                 #[cfg(feature = "rng")]
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index dbf726c..0e2f032 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -84,7 +84,7 @@ cfg_if! {
         type Tokens = ();
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 #[cfg(not(all(target_feature = "avx512f", target_feature = "avx512vl")))]
                 compile_error!("You must enable `avx512f` and `avx512vl` target features with \
                     `chacha20_backend = "avx512"` configuration option");
@@ -245,7 +245,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                 f.call(&mut backends::soft::Backend(self));
             } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
                 cfg_if! {
-                    if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+                    if #[cfg(chacha20_backend = "avx512")] {
                         unsafe {
                             backends::avx512::inner::<R, _, V>(&mut self.state, f);
                         }
-- 
2.43.0


From 77e09d212a871bd86e6a4ef5686f25d9883b8f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 5/7] fix: chacha20: keep the 32-bit counter of ChaChaCore<_,
 Ietf> out of the nonce in Generator

The soft, SSE2 and AVX2 RNG paths always added to the counter as a 64-bit
value, so generating across block 2^32 with the 96-bit-nonce variant carried
into (and left modified) the first nonce word, unlike the cipher paths and the
NEON backend.
---
 chacha20/src/backends/avx2.rs | 20 +++++++++++++++++---
 chacha20/src/backends/soft.rs |  4 +++-
 chacha20/src/backends/sse2.rs |  6 +++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/chacha20/src/backends/avx2.rs b/chacha20/src/backends/avx2.rs
index 2d7c3f5..d18f2fc 100644
--- a/chacha20/src/backends/avx2.rs
+++ b/chacha20/src/backends/avx2.rs
@@ -93,11 +93,19 @@ where
         _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
     ];
     let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));
-    c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0));
+    c = match size_of::<V::Counter>() {
+        4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0)),
+        8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0)),
+        _ => unreachable!(),
+    };
     let mut ctr = [c; N];
     for i in 0..N {
         ctr[i] = c;
-        c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2));
+        c = match size_of::<V::Counter>() {
+            4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 2, 0, 0, 0, 2)),
+            8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2)),
+            _ => unreachable!(),
+        };
     }
     let mut backend = Backend::<R, V> {
         v,
@@ -188,7 +196,13 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
 
             let pb = PAR_BLOCKS as i32;
             for c in self.ctr.iter_mut() {
-                *c = _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)));
+                *c = match size_of::<V::Counter>() {
+                    4 => _mm256_add_epi32(*c, _mm256_set_epi32(0, 0, 0, pb, 0, 0, 0, pb)),
+                    8 => {
+                        _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)))
+                    }
+                    _ => unreachable!(),
+                }
             }
 
             let mut block_ptr = blocks.as_mut_ptr().cast::<__m128i>();
diff --git a/chacha20/src/backends/soft.rs b/chacha20/src/backends/soft.rs
index ed448d4..cb6294b 100644
--- a/chacha20/src/backends/soft.rs
+++ b/chacha20/src/backends/soft.rs
@@ -54,7 +54,9 @@ impl<R: Rounds, V: Variant> Backend<'_, R, V> {
             let mut ctr = (u64::from(self.0.state[13]) << 32) | u64::from(self.0.state[12]);
             ctr = ctr.wrapping_add(1);
             self.0.state[12] = ctr as u32;
-            self.0.state[13] = (ctr >> 32) as u32;
+            if size_of::<V::Counter>() == 8 {
+                self.0.state[13] = (ctr >> 32) as u32;
+            }
 
             buffer[block * BLOCK_WORDS as usize..(block + 1) * BLOCK_WORDS as usize]
                 .copy_from_slice(&res);
diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index f6479a1..5ab11d3 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -140,7 +140,11 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
         const _: () = assert!(4 * PAR_BLOCKS * size_of::<__m128i>() == size_of::<[u32; 64]>());
         unsafe {
             let res = rounds::<R, V>(&self.v);
-            self.v[3] = _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64));
+            self.v[3] = match size_of::<V::Counter>() {
+                4 => _mm_add_epi32(self.v[3], _mm_set_epi32(0, 0, 0, PAR_BLOCKS as i32)),
+                8 => _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64)),
+                _ => unreachable!(),
+            };
 
             let blocks_ptr = block.as_mut_ptr().cast::<__m128i>();
             for block in 0..PAR_BLOCKS {
-- 
2.43.0


From 33c020e605896bb08a966ff3f50ca507acd1c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 6/7] fix: chacha20: do not execute SSE4.1 instructions in the
 SSE2 backend

`_mm_extract_epi32` is an SSE4.1 intrinsic (compiled to extractps/pextrd), but
the SSE2 backend runs on any CPU with SSE2. It was used to store the upper
half of the 64-bit counter (legacy cipher and RNGs).
---
 chacha20/src/backends/sse2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index 5ab11d3..eb0c6cf 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -51,7 +51,7 @@ where
 
     state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 0b_01)) as u32;
     }
 }
 
@@ -130,7 +130,7 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    core.state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 0b_01)) as u32;
 }
 
 #[cfg(feature = "rng")]
-- 
2.43.0


From 3ef72a2a75232932b5535467a850a10474953675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 7/7] fix: use the portable ChaCha backend on big-endian
 aarch64

The NEON backend assumes little-endian lane order: the generator's output
words came out byte-swapped and the 64-bit counter was stored with its
halves exchanged.
---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 2 +-
 chacha20/src/rng.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index dc12221..d97751c 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -24,7 +24,7 @@ cfg_if! {
                 pub(crate) mod sse2;
             }
         }
-    } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+    } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon", target_endian = "little"))] {
         pub(crate) mod neon;
     } else {
         pub(crate) mod soft;
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index 0e2f032..924c91e 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -286,7 +286,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon", target_endian = "little"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::inner::<R, _, V>(&mut self.state, f);
diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 1840b2c..b1d7b7e 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -82,7 +82,7 @@ impl<R: Rounds, V: Variant> Generator for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon", target_endian = "little"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::rng_inner::<R, V>(self, buffer);
-- 
2.43.0

