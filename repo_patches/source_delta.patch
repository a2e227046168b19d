From ace1b39408c08f9baeb72f63570bfb7e4f64fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:27 +0000
Subject: [PATCH 1/4] fix: lyra2 panicked for derived keys longer than one
 96-byte block

squeeze() copied output_size bytes out of the squeezed data after every
block, so the first block (96 bytes) was sliced past its end whenever
output_size > 96. Copy once, after all blocks have been squeezed.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..b2f3fd4 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -154,10 +154,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //be care in case of len(out[i:])<len(tmp)
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
-- 
2.43.0


From 4591b525e18d864bed55077ff6a69f04304e6e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:27 +0000
Subject: [PATCH 2/4] fix: lyra2 copied the rest of the memory matrix for every
 absorbed block

Each absorb was handed a copy of everything from the current block to the
end of the matrix although it reads only the block itself, making the cost
quadratic (R=32768, C=1, 3 MB of input: 5.9 s) and doubling peak memory.
Hand over the one block.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index b2f3fd4..bb3bb9b 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -334,7 +334,7 @@ pub fn lyra2(
     let mut ptr_word = 0;
     for _i in 0..n_blocks_input {
         let (_, mut _right) = &whole_matrix.split_at(ptr_word);
-        state = absorb_block_blake2_safe(state, _right.to_vec()); //absorbs each block of pad(pwd || salt || basil)
+        state = absorb_block_blake2_safe(state, _right[..BLOCKLENBLAKE2SAFEINT64 as usize].to_vec()); //absorbs each block of pad(pwd || salt || basil)
         ptr_word += BLOCKLENBLAKE2SAFEINT64 as usize; //goes to next block of pad(pwd || salt || basil)
     }
 
@@ -646,7 +646,7 @@ pub fn lyra2(
     //============================ Wrap-up Phase ===============================//
     //Absorbs the last block of the memory matrix
     let (_, mut _right) = &whole_matrix.split_at((rowa * row_len_int64) as usize);
-    state = absorb_block(state, _right.to_vec());
+    state = absorb_block(state, _right[..BLOCKLENINT64 as usize].to_vec());
     //Squeezes the key
     squeeze(state, k)
     //==========================================================================/
-- 
2.43.0


From 300bba0ed21ffa4248a512c412f51536d654ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:43 +0000
Subject: [PATCH 3/4] hooks: cfg(lyra2_verif) access to the private hash stages

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a330a71..c13293d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // for cfg(lyra2_verif) below
 mod bmw;
 mod cubehash;
 mod lyra2mod;
@@ -7,3 +8,19 @@ pub mod lyra2z;
 pub mod lyra2re;
 pub mod lyra2rev2;
 pub mod lyra2rev3;
+
+/// Verification-only access to the private stages of the chained hashes.
+/// Compiled only with `--cfg lyra2_verif`; never part of a normal build.
+#[cfg(lyra2_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub fn bmw256(input: Vec<u8>) -> Vec<u8> {
+        crate::bmw::sum(input)
+    }
+    pub fn cubehash256(input: Vec<u8>) -> Vec<u8> {
+        crate::cubehash::sum(input)
+    }
+    pub fn lyra2mod(input: Vec<u8>) -> Vec<u8> {
+        crate::lyra2mod::sum(input)
+    }
+}
-- 
2.43.0


From ffc15002690ab882b1adf0a099ed6ae4dd109368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 4/4] fix: lyra2 returned keys for matrix sizes that overflow
 (release builds)

---
 src/lyra2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index bb3bb9b..082501e 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -253,6 +253,15 @@ pub fn lyra2(
     //============================= parameter check ============================//
     if time_cost < 1 {panic!()};
     if n_rows < 3 {panic!()};
+    //a matrix whose size overflows must not be run on a wrapped, smaller one
+    if n_rows
+        .checked_mul(n_cols)
+        .and_then(|n| n.checked_mul(BLOCKLENINT64 as u64))
+        .and_then(|n| isize::try_from(n).ok())
+        .is_none()
+    {
+        panic!()
+    };
     //==========================================================================/
 
     //============================= Basic variables ============================//
-- 
2.43.0

