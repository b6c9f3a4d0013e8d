From 9ceb0e22b6d1e40ed34ba325d6a066884a0e6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 01/13] fix: do not read past the L1 index when selecting in
 the last block

select looked at the L1 entry after the last one for every one bit in
the last L1 block. That is an out-of-bounds read; debug builds abort.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index d82cff9..0d4ba36 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -256,8 +256,12 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         // SAFETY: The data in sampled_ones should be correct, so this must work too
         let mut l1 = unsafe { self.l1(l1_index) };
         // Find the l1 block that contains the 1 we need
-        while l1 <= rank && l1_index < self.l1_index.len() {
+        while l1 <= rank {
             l1_index += 1;
+            // The last block has no successor to compare with
+            if l1_index == self.l1_index.len() {
+                break;
+            }
             l1 = unsafe { self.l1(l1_index) };
         }
         l1_index -= 1;
-- 
2.43.0


From 5c0832f7c962c8ade13e5b2912cbc050a7323631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 02/13] fix: return None when selecting one past the last one
 bit

Ranks count from zero, so a vector with m ones has no one of rank m.
select(m) panicked or returned a position past the last one.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 0d4ba36..fe0c0e3 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -249,7 +249,7 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
 
 impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
     fn select(&self, mut rank: usize) -> Option<usize> {
-        if rank > self.number_of_ones {
+        if rank >= self.number_of_ones {
             return None;
         }
         let mut l1_index = self.sampled_ones.get(rank >> 13);
-- 
2.43.0


From a6a1cfbace7057238f1d5164651634e778c057f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 03/13] fix: keep rank queries inside the bit vector

rank(len) read one word past the end when the length is a multiple of 64,
any rank on an empty vector read an empty index, and indices beyond the
length read arbitrary memory. Ranks up to the length are now answered and
larger indices panic.
---
 .../src/rank_select/flat_popcount/mod.rs       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index fe0c0e3..90b7d86 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -215,6 +215,14 @@ impl<'a, T> FlatPopcount<'a, T> {
 
 impl<T> RankSupport for FlatPopcount<'_, T> {
     fn rank<const TARGET: bool>(&self, index: usize) -> usize {
+        if index > self.len() {
+            panic!("index is {index} but length is {}", self.len())
+        }
+        // Also covers the empty bit vector, for which there is no index
+        if index == 0 {
+            return 0;
+        }
+
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
@@ -233,10 +241,12 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
             ones += unsafe { raw_backing.get_unchecked(word_start + i).count_ones() as usize };
         }
 
-        // Add the rest bits
-        unsafe {
-            ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
-                .count_ones() as usize
+        // Add the rest bits. Without any, the word might be one past the end
+        if rest_bits > 0 {
+            unsafe {
+                ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
+                    .count_ones() as usize
+            }
         }
 
         if TARGET {
-- 
2.43.0


From 5c26fb83c5d13c587e0878d9786913a0528f54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 04/13] fix: export SelectSupport so that select can be called

The trait lives in a private module and was not re-exported, so users of
the crate had no way to call select on a FlatPopcount.
---
 succinct_neo/src/rank_select/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/mod.rs b/succinct_neo/src/rank_select/mod.rs
index e5d5323..82ee5f2 100644
--- a/succinct_neo/src/rank_select/mod.rs
+++ b/succinct_neo/src/rank_select/mod.rs
@@ -1,5 +1,5 @@
 pub mod flat_popcount;
 mod traits;
 
-pub use traits::RankSupport;
+pub use traits::{RankSupport, SelectSupport};
 pub use flat_popcount::FlatPopcount;
-- 
2.43.0


From 2bd3d2aa739c830ed4efdcf671860e66da9fb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 05/13] fix: reject slice bounds that overflow in release
 builds

An inclusive end or exclusive start of usize::MAX wrapped around to 0 in
release builds, so slice(..=usize::MAX) returned an empty slice instead of
panicking.
---
 succinct_neo/src/bit_vec/slice/slicing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/slicing.rs b/succinct_neo/src/bit_vec/slice/slicing.rs
index eca194f..f552d5f 100644
--- a/succinct_neo/src/bit_vec/slice/slicing.rs
+++ b/succinct_neo/src/bit_vec/slice/slicing.rs
@@ -64,13 +64,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice(&self, r: impl RangeBounds<usize>) -> BitSlice<&Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound out of range"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound out of range"),
             Bound::Unbounded => self.len(),
         };
 
@@ -163,13 +163,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice_mut(&mut self, r: impl RangeBounds<usize>) -> BitSlice<&mut Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound out of range"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound out of range"),
             Bound::Unbounded => self.len(),
         };
 
-- 
2.43.0


From 06b5ee6cfb2f7d8a265f65cc600d8647d7c8a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 06/13] fix: reject inverted bounds in BitSlice::new in release
 builds

The check was a debug assertion. In release builds an inverted slice got a
huge length, and safe accessors then touched memory out of bounds.
---
 succinct_neo/src/bit_vec/slice/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index 1e9e16a..dddd1dd 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -54,7 +54,7 @@ impl<Backing> BitSlice<Backing> {
     /// assert_eq!(false, slice.get_bit(3));
     /// ```
     pub fn new(backing: Backing, start: usize, end: usize) -> Self {
-        debug_assert!(
+        assert!(
             start <= end,
             "end index must be greater or equal to the start index"
         );
-- 
2.43.0


From d652e036ddca6b108726ad76ac688a30b1a6a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:34 +0000
Subject: [PATCH 07/13] fix: check the backing's bounds in safe bit slice
 accesses

BitSlice::new and Iter::new accept any window, also one that exceeds the
backing. Safe reads, writes and iteration only checked the window and then
touched memory out of bounds. They now use the backing's checked accessors.
---
 succinct_neo/src/bit_vec/mod.rs               | 4 ++--
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/succinct_neo/src/bit_vec/mod.rs b/succinct_neo/src/bit_vec/mod.rs
index 789e891..59cfd77 100644
--- a/succinct_neo/src/bit_vec/mod.rs
+++ b/succinct_neo/src/bit_vec/mod.rs
@@ -94,7 +94,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.data.set_bit(index, value)
     }
 
     #[inline]
@@ -107,7 +107,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.data.flip_bit(index)
     }
 }
 
diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 95a3015..4eeb894 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -19,7 +19,8 @@ impl<Backing: BitGet> BitGet for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.get_bit_unchecked(index) }
+        // The bounds given to `new` might exceed the backing, so it has to check too
+        self.backing.get_bit(self.start + index)
     }
 }
 
@@ -34,7 +35,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.backing.set_bit(self.start + index, value)
     }
 
     #[inline]
@@ -47,7 +48,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.backing.flip_bit(self.start + index)
     }
 }
 
@@ -58,7 +59,7 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         if self.current >= self.end {
             return None;
         }
-        let v = unsafe { self.backing.get_bit_unchecked(self.current) };
+        let v = self.backing.get_bit(self.current);
         self.current += 1;
         Some(v)
     }
-- 
2.43.0


From 45390cf1deb201456b61bf1a45721b0f3b7a77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:34 +0000
Subject: [PATCH 08/13] fix: report exact size hints from the exact-size
 iterators

The iterators implement ExactSizeIterator but kept the default size hint,
so adaptors that rely on it, such as take(n).len(), panicked. The length of
a bit iterator with inverted bounds also underflowed.
---
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 6 +++++-
 succinct_neo/src/int_vec/mod.rs               | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 4eeb894..5a9aaf7 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -63,11 +63,15 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         self.current += 1;
         Some(v)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<Backing: BitGet> ExactSizeIterator for Iter<Backing> {
     fn len(&self) -> usize {
-        self.end - self.current
+        self.end.saturating_sub(self.current)
     }
 }
 
diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d07b9e..9818634 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -200,6 +200,10 @@ impl Iterator for IntoIter {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for IntoIter {
@@ -225,6 +229,10 @@ impl Iterator for Iter<'_> {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for Iter<'_> {
-- 
2.43.0


From 3178ec8940631a10e70315ae3e3d070a489a02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:34 +0000
Subject: [PATCH 09/13] fix: support 64-bit wide integers and reject wider ones

A width of 64 overflowed every mask computation: debug builds panicked on
the first push and release builds rejected all values but 0. Widths above
64 were accepted and wrote out of bounds in release builds.
---
 succinct_neo/src/int_vec/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 9818634..302c20e 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -21,6 +21,10 @@ impl IntVec {
     #[inline]
     pub fn with_capacity(width: usize, capacity: usize) -> Self {
         let block_size = Self::block_width();
+        assert!(
+            width <= block_size,
+            "integers can be at most {block_size} bits wide"
+        );
         let num_blocks = (capacity * width) / block_size;
 
         let mut temp = Self {
@@ -41,7 +45,7 @@ impl IntVec {
 
     #[inline]
     const fn mask(&self) -> usize {
-        (1 << self.width) - 1
+        usize::MAX >> (Self::block_width() - self.width)
     }
 
     /// Calculates the current offset inside the last used block where the next integer would be
@@ -52,13 +56,16 @@ impl IntVec {
     }
 
     pub fn push(&mut self, v: usize) {
-        if v >= (1 << self.width) {
+        if v > self.mask() {
             panic!("value too large for {}-bit integer", self.width)
         }
         let offset = self.current_offset();
         let mask = self.mask();
         if offset == 0 {
             *self.data.last_mut().unwrap() |= v & mask;
+            if self.width == Self::block_width() {
+                self.data.push(0);
+            }
             self.size += 1;
             return;
         }
@@ -115,7 +122,7 @@ impl IntAccess for IntVec {
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             let remaining_bits = self.width - fitting_bits;
             let lo = self.data[index_block] >> index_offset;
@@ -124,7 +131,7 @@ impl IntAccess for IntVec {
             return (hi << fitting_bits) | lo;
         }
 
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         (self.data[index_block] >> index_offset) & mask
     }
 
@@ -132,20 +139,20 @@ impl IntAccess for IntVec {
         if index >= self.len() {
             panic!("length is {} but index is {index}", self.len())
         }
-        if value >= (1 << self.width) {
+        if value > self.mask() {
             panic!("value {value} too large for {}-bit integer", self.width)
         }
         unsafe { self.set_unchecked(index, value) }
     }
 
     unsafe fn set_unchecked(&mut self, index: usize, value: usize) {
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         let value = value & mask;
         let index_block = (index * self.width) / Self::block_width();
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             unsafe {
                 let lower_block = self.data.get_unchecked_mut(index_block);
-- 
2.43.0


From 610e43c674df7534940d01680e9ee2b4c90707ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:54 +0000
Subject: [PATCH 10/13] fix: refuse to index bit vectors whose window is not at
 the start of their storage

A bit vector's slice can be replaced through DerefMut by one that starts
in the middle of its storage. The rank/select index counted from the
first word anyway, so answers were wrong and select could read past the
end of the storage.
---
 succinct_neo/src/bit_vec/slice/mod.rs             | 6 ++++++
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index dddd1dd..c424e3b 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -84,6 +84,12 @@ impl<Backing> BitSlice<Backing> {
     pub fn backing(&self) -> &Backing {
         &self.backing
     }
+
+    /// The index of this slice's first bit inside the backing data
+    #[inline]
+    pub(crate) fn start(&self) -> usize {
+        self.start
+    }
 }
 
 impl<Backing: BitGet> BitSlice<Backing> {
diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 90b7d86..415c64b 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -63,6 +63,12 @@ impl<'a, T> FlatPopcount<'a, T> {
     /// assert_eq!(12, rank_ds.rank::<false>(13));
     /// ```
     pub fn new(backing: &'a BitVec) -> Self {
+        // The index counts whole words, so the bits need to start at the first one
+        assert_eq!(
+            0,
+            backing.start(),
+            "the bits must start at the first word of the bit vector"
+        );
         if backing.len() == 0 {
             return Self {
                 backing,
-- 
2.43.0


From 7f06d7d0dfc7d8692f57177844ffaac6f9057350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:21 +0000
Subject: [PATCH 11/13] fix: start select at the sampled block instead of
 half-way to it

The samples are stored as position / 8192, but select used them as
indices of 4096-bit blocks. It therefore began half-way and walked
through the rest of the index, in time linear in the position.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 415c64b..9ac7123 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -268,7 +268,8 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         if rank >= self.number_of_ones {
             return None;
         }
-        let mut l1_index = self.sampled_ones.get(rank >> 13);
+        // The samples count in pairs of l1 blocks
+        let mut l1_index = self.sampled_ones.get(rank >> 13) << 1;
         // SAFETY: The data in sampled_ones should be correct, so this must work too
         let mut l1 = unsafe { self.l1(l1_index) };
         // Find the l1 block that contains the 1 we need
-- 
2.43.0


From 0e3a869281e527b54dfd50fcaed4269eff293e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:42:32 +0000
Subject: [PATCH 12/13] fix: read the upper field of an index entry independent
 of the byte order

---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 9ac7123..1729c33 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -215,7 +215,7 @@ impl<'a, T> FlatPopcount<'a, T> {
 
     #[inline]
     unsafe fn l1(&self, l1_index: usize) -> usize {
-        *((self.l1_index.get_unchecked(l1_index) as *const u128 as *const usize).offset(1)) >> 20
+        (*self.l1_index.get_unchecked(l1_index) >> 84) as usize
     }
 }
 
-- 
2.43.0


From 983cd3d3f6d37c7ef96e04372f87f84ad62a4698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:28:37 +0000
Subject: [PATCH 13/13] fix: do not trust a select strategy to lead to an
 existing word

---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 1729c33..0e19d21 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -293,7 +293,8 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         let mut current_index = (l1_index << 6) + (l2_index << 3);
         let mut index_in_l2 = 0;
         loop {
-            let num_ones = unsafe { self.backing.raw().get_unchecked(current_index).count_ones() as usize};
+            // Anyone can implement the strategy, so it is not trusted to lead to an existing word
+            let num_ones = self.backing.raw()[current_index].count_ones() as usize;
             if num_ones <= rank {
                 rank -= num_ones;
                 current_index += 1;
-- 
2.43.0

