From e66991bc000522979dc81f950a6c8766efebf10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 1/7] fix: keep Bitboard::shift_right results within the board

With delta 0 or 1 a square of file 8 or 9 could reach bit 63 of the first
word, which is not a valid representation.
---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From 66367f6a913808303b894486566ce44355a47757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 2/7] fix: keep king positions in step with the board

PartialPosition::piece_set never cleared the cached square of a king that was
removed or overwritten, so king_position() could name a square without a king
and two positions with the same contents could compare unequal while Ord and
Hash agreed.
---
 shogi_core/src/position.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..a1d4625 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -601,11 +601,12 @@ impl PartialPosition {
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] |= single;
-            if let Piece::B_K = piece {
-                self.king_square[0] = OptionSquare::from(Some(square));
-            }
-            if let Piece::W_K = piece {
-                self.king_square[1] = OptionSquare::from(Some(square));
+        }
+        // A king might have appeared or disappeared: `king_square` must follow the board.
+        for king in [Piece::B_K, Piece::W_K] {
+            if old == Some(king) || piece == Some(king) {
+                self.king_square[king.color().array_index()] =
+                    self.piece_bitboard(king).pop().into();
             }
         }
     }
-- 
2.43.0


From 5518d7b6480f07a804dd196d9059f79d8c6c81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 3/7] fix: implement the promised traits for OptionPieceKind

The README promises Eq and PartialEq for all types, and Ord, PartialOrd and
Hash for all exported types under the ord and hash features.
---
 shogi_core/src/piece_kind.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shogi_core/src/piece_kind.rs b/shogi_core/src/piece_kind.rs
index ec5dbd0..7432b9e 100644
--- a/shogi_core/src/piece_kind.rs
+++ b/shogi_core/src/piece_kind.rs
@@ -316,6 +316,7 @@ impl ToUsi for PieceKind {
 ///
 /// See: <https://github.com/eqrion/cbindgen/issues/326>.
 #[repr(transparent)]
+#[derive(Eq, PartialEq, Clone, Copy, Debug)]
 pub struct OptionPieceKind(u8);
 
 impl From<Option<PieceKind>> for OptionPieceKind {
@@ -341,6 +342,9 @@ impl From<OptionPieceKind> for Option<PieceKind> {
     }
 }
 
+impl_ord_for_single_field!(OptionPieceKind);
+impl_hash_for_single_field!(OptionPieceKind);
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 36f614dbb3a562af7f22bf3e9960f0cc4b5603a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 4/7] fix: state a sufficient buffer size for to_sfen_c

A position that is not made of an ordinary set of 40 pieces can need up to
236 bytes, so the documented 139 bytes let a caller under-allocate.
---
 include/shogi_core.h       | 8 ++++++--
 shogi_core/src/position.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/shogi_core.h b/include/shogi_core.h
index cb221b5..1788959 100644
--- a/include/shogi_core.h
+++ b/include/shogi_core.h
@@ -814,7 +814,9 @@ void PartialPosition_startpos(struct PartialPosition *buf);
  * C interface of `to_sfen`.
  *
  * # Safety
- * This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+ * This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
+ * If the position has at most the 40 pieces of an ordinary set,
+ * it writes at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
  * Caller should ensure that `ptr` has enough space for that.
  */
 void PartialPosition_to_sfen_c(const struct PartialPosition *self, uint8_t *ptr);
@@ -972,7 +974,9 @@ struct Position *Position_startpos(void);
  * C interface of `to_sfen`.
  *
  * # Safety
- * This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+ * This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
+ * If the position has at most the 40 pieces of an ordinary set,
+ * it writes at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
  * Caller should ensure that `ptr` has enough space for that.
  */
 void Position_to_sfen_c(const struct Position *self, uint8_t *ptr);
diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index a1d4625..6287ecb 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -352,7 +352,9 @@ impl Position {
     /// C interface of `to_sfen`.
     ///
     /// # Safety
-    /// This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+    /// This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
+    /// If the position has at most the 40 pieces of an ordinary set,
+    /// it writes at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
     /// Caller should ensure that `ptr` has enough space for that.
     #[export_name = "Position_to_sfen_c"]
     pub unsafe extern "C" fn to_sfen_c(&self, ptr: *mut u8) {
@@ -826,7 +828,9 @@ impl PartialPosition {
     /// C interface of `to_sfen`.
     ///
     /// # Safety
-    /// This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+    /// This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
+    /// If the position has at most the 40 pieces of an ordinary set,
+    /// it writes at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
     /// Caller should ensure that `ptr` has enough space for that.
     #[export_name = "PartialPosition_to_sfen_c"]
     pub unsafe extern "C" fn to_sfen_c(&self, ptr: *mut u8) {
-- 
2.43.0


From e1d638ed5040d0c851c77880bd2a4adcc3dc12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 5/7] fix: make Square_from_u8 and Square_shift callable from C

The header declared them with an incomplete return type. Like the other
optional results they now go through OptionSquare.
---
 include/shogi_core.h     | 28 ++++------------------------
 shogi_core/src/square.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/include/shogi_core.h b/include/shogi_core.h
index 1788959..e1aeee8 100644
--- a/include/shogi_core.h
+++ b/include/shogi_core.h
@@ -288,8 +288,6 @@ typedef uint8_t PieceKind;
 typedef struct Game Game;
 #endif
 
-typedef struct Option_Square Option_Square;
-
 /**
  * A record of a game. A position and how a game is resolved.
  */
@@ -1010,17 +1008,9 @@ uint8_t Square_file(Square self);
 Square Square_flip(Square self);
 
 /**
- * Converts a [`u8`] to a [`Square`]. If `value` is not in range `1..=81`, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::from_u8(21), Some(Square::SQ_3C));
- * assert_eq!(Square::from_u8(0), None);
- * assert_eq!(Square::from_u8(82), None);
- * ```
+ * C interface to [`Square::from_u8`].
  */
-struct Option_Square Square_from_u8(uint8_t value);
+OptionSquare Square_from_u8(uint8_t value);
 
 /**
  * C interface to [`Square::from_u8_unchecked`].
@@ -1074,18 +1064,8 @@ uint8_t Square_relative_file(Square self, Color color);
 uint8_t Square_relative_rank(Square self, Color color);
 
 /**
- * Shifts `self` by the given arguments. If the result would be out of the board, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::SQ_3C.shift(-1, 3), Some(Square::SQ_2F));
- * assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
- * assert_eq!(Square::SQ_3C.shift(-4, 3), None);
- * ```
+ * C interface to [`Square::shift`].
  */
-struct Option_Square Square_shift(Square self,
-                                  int8_t file_delta,
-                                  int8_t rank_delta);
+OptionSquare Square_shift(Square self, int8_t file_delta, int8_t rank_delta);
 
 #endif /* shogi_core_bindings_h */
diff --git a/shogi_core/src/square.rs b/shogi_core/src/square.rs
index 09ba7c2..0abcd73 100644
--- a/shogi_core/src/square.rs
+++ b/shogi_core/src/square.rs
@@ -151,7 +151,6 @@ impl Square {
     /// assert_eq!(Square::from_u8(82), None);
     /// ```
     #[inline]
-    #[export_name = "Square_from_u8"]
     pub extern "C" fn from_u8(value: u8) -> Option<Self> {
         // The shortest possible machine code for this function in x86_64 (System V AMD64 ABI) is:
         // 31 c0       xorl %eax, %eax
@@ -165,6 +164,12 @@ impl Square {
         }
     }
 
+    /// C interface to [`Square::from_u8`].
+    #[no_mangle]
+    pub extern "C" fn Square_from_u8(value: u8) -> OptionSquare {
+        Square::from_u8(value).into()
+    }
+
     /// Converts [`u8`] to [`Square`] without checking.
     ///
     /// # Safety
@@ -199,7 +204,6 @@ impl Square {
     /// assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
     /// assert_eq!(Square::SQ_3C.shift(-4, 3), None);
     /// ```
-    #[export_name = "Square_shift"]
     pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
         self.sanity_check();
         let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);
@@ -211,6 +215,12 @@ impl Square {
         Some(unsafe { Self::from_u8_unchecked((file_m1 * 9 + rank_m1 + 1) as u8) })
     }
 
+    /// C interface to [`Square::shift`].
+    #[no_mangle]
+    pub extern "C" fn Square_shift(self, file_delta: i8, rank_delta: i8) -> OptionSquare {
+        self.shift(file_delta, rank_delta).into()
+    }
+
     /// Returns the index of `self` for array accesses. This function returns an integer in range `0..Square::MAX`.
     ///
     /// Since: 0.1.2
-- 
2.43.0


From d5b0165629f81e9f5d99a3e8d11291d64e32b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 6/7] fix: align the arena of the no_std allocator

The arena was a plain byte array without any alignment, and the allocator
aligns only the offset into it, so that every Position created through the C
interface could be (and was, with the current layout of .bss) misaligned.
---
 shogi_core_c/src/no_std.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..7e35b9c 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,11 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // Offsets into the arena are aligned only if the arena itself is.
+    #[repr(C, align(4096))] // 4096 == MAX_SUPPORTED_ALIGN
+    struct Arena(UnsafeCell<[u8; ARENA_SIZE]>);
+
+    static mut ARENA_BSS: Arena = Arena(UnsafeCell::new([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
@@ -107,7 +111,7 @@ mod simple_alloc {
             {
                 return null_mut();
             };
-            (ARENA_BSS.get() as *mut u8).add(allocated)
+            (ARENA_BSS.0.get() as *mut u8).add(allocated)
         }
         unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
     }
-- 
2.43.0


From beb25814791c242ac2dd02fadc45323120673bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 7/7] Add a guarded hook to the C library's allocator for
 external checks

Only with --cfg verif_hooks; without it nothing changes.
---
 shogi_core_c/src/lib.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/shogi_core_c/src/lib.rs b/shogi_core_c/src/lib.rs
index e10d492..bf31982 100644
--- a/shogi_core_c/src/lib.rs
+++ b/shogi_core_c/src/lib.rs
@@ -12,3 +12,27 @@ mod no_std;
 
 #[doc(hidden)]
 pub use shogi_core::*;
+
+/// Lets external checks reach the global allocator of this library.
+#[cfg(all(verif_hooks, feature = "alloc"))]
+mod verif_hooks {
+    use alloc::alloc::{alloc, dealloc, realloc, Layout};
+
+    #[no_mangle]
+    pub unsafe extern "C" fn verif_alloc(size: usize, align: usize) -> *mut u8 {
+        alloc(Layout::from_size_align_unchecked(size, align))
+    }
+    #[no_mangle]
+    pub unsafe extern "C" fn verif_realloc(
+        ptr: *mut u8,
+        size: usize,
+        align: usize,
+        new_size: usize,
+    ) -> *mut u8 {
+        realloc(ptr, Layout::from_size_align_unchecked(size, align), new_size)
+    }
+    #[no_mangle]
+    pub unsafe extern "C" fn verif_dealloc(ptr: *mut u8, size: usize, align: usize) {
+        dealloc(ptr, Layout::from_size_align_unchecked(size, align))
+    }
+}
-- 
2.43.0

