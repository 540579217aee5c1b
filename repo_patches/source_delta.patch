From 3050da36714ca3e5e48248ee3a9eb1d1fcc15147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 1/2] fix: include the side to move in the keys of a
 constructed Position

Position::new never hashed the side to move while do_move toggles it, so a
position with White to move had different keys depending on whether it was
constructed or reached by a move, and two positions that differ only in the
side to move had equal keys.
---
 src/position.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..8ddd364 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -29,6 +29,10 @@ impl Position {
                 }
             }
         }
+        // `do_move` toggles this with every move; account for the initial side too
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         let checkers = AttackInfo::calculate_checkers(&inner);
         let state = State {
             keys,
-- 
2.43.0


From f97861155f43eca20a2b307f1ca1c7051fb6264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:55 +0000
Subject: [PATCH 2/2] fix: store vector registers through a mutable pointer

The values of a bitboard were written through a pointer obtained from
MaybeUninit::as_ptr(), that is from a shared reference, which is undefined
behaviour.
---
 src/bitboard/aarch64.rs | 4 ++--
 src/bitboard/x86_64.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitboard/aarch64.rs b/src/bitboard/aarch64.rs
index 120170a..7160f45 100644
--- a/src/bitboard/aarch64.rs
+++ b/src/bitboard/aarch64.rs
@@ -62,8 +62,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(self) -> [u64; 2] {
         unsafe {
-            let m = MaybeUninit::<[u64; 2]>::uninit();
-            aarch64::vst1q_u64(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[u64; 2]>::uninit();
+            aarch64::vst1q_u64(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
diff --git a/src/bitboard/x86_64.rs b/src/bitboard/x86_64.rs
index 2732df2..33034e4 100644
--- a/src/bitboard/x86_64.rs
+++ b/src/bitboard/x86_64.rs
@@ -66,8 +66,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(&self) -> [i64; 2] {
         unsafe {
-            let m = MaybeUninit::<[i64; 2]>::uninit();
-            x86_64::_mm_storeu_si128(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[i64; 2]>::uninit();
+            x86_64::_mm_storeu_si128(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
-- 
2.43.0

