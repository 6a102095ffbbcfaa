From 0fb33ac0fc726f9b83f04a37b47e98f62a6b5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 01/18] fix: compare and hash the last limb of bit vectors
 whose length is a multiple of 64

The mask for the last limb was zero if the length was a multiple of the word
size, so differences in the last 64 bits were ignored by == and Hash.
---
 src/bit_vec/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..4821490 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1606,7 +1606,7 @@ impl PartialEq for BitVec {
         }
 
         // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
+        let mask = u64::MAX >> (WORD_SIZE - 1 - (self.len - 1) % WORD_SIZE);
         if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
             return false;
         }
@@ -1624,7 +1624,8 @@ impl Hash for BitVec {
             self.data[0..self.data.len() - 1]
                 .iter()
                 .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+            let mask = u64::MAX >> (WORD_SIZE - 1 - (self.len - 1) % WORD_SIZE);
+            let masked_last_limb = self.data.last().unwrap() & mask;
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From ecf2a755d61baf34dffea2b7893cbd3e16f6531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 02/18] fix: select iterators no longer underflow when skipping
 all remaining elements from the back

---
 src/bit_vec/fast_rs_vec/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..16a0448 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,12 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    // None, if all elements including element 0 have been skipped
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From 2d3575316951f47e26da2fd04bbd133782d86c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 03/18] fix: BitSetIter yields every element exactly once, and
 none past the end

The last chunk was emitted a second time by the scalar tail loop, and a partial
last chunk was loaded including the data past the end of the vector.
---
 src/bit_vec/fast_rs_vec/bitset.rs | 42 +++++++++++--------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..8c01e12 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -91,13 +91,23 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             cursor: 0,
         };
 
-        if vec.len() > VECTOR_SIZE {
-            iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
+        if !vec.is_empty() {
+            iter.load_chunk_at_base();
         }
 
         iter
     }
 
+    /// Load the chunk starting at `base`, ignoring all data past the end of the vector.
+    fn load_chunk_at_base(&mut self) {
+        let len = VECTOR_SIZE.min(self.vec.len() - self.base);
+        let mut data = self.vec.get_bits_unchecked(self.base, len) as u16;
+        if ZERO && len < VECTOR_SIZE {
+            data |= u16::MAX << len;
+        }
+        self.load_chunk(data);
+    }
+
     fn load_chunk(&mut self, data: u16) {
         use std::arch::x86_64::{__mmask16, _mm512_mask_compressstoreu_epi32, _mm512_setr_epi32};
 
@@ -121,8 +131,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             }
 
             self.base += VECTOR_SIZE;
-            let data = self.vec.get_bits_unchecked(self.base, VECTOR_SIZE) as u16;
-            self.load_chunk(data);
+            self.load_chunk_at_base();
         }
         Some(())
     }
@@ -132,30 +141,7 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
-        if self.cursor == self.content_len {
-            if self.load_next_chunk().is_none() {
-                if ZERO {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 0 {
-                        self.base += 1;
-                    }
-                } else {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 1 {
-                        self.base += 1;
-                    }
-                }
-
-                return if self.base < self.vec.len() {
-                    self.base += 1;
-                    Some(self.base - 1)
-                } else {
-                    None
-                };
-            }
-        }
+        self.load_next_chunk()?;
 
         let offset = self.offsets[self.cursor as usize];
         self.cursor += 1;
-- 
2.43.0


From af274345832bac1f82199e193f0a05f92a3e097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 04/18] fix: Elias-Fano iterators' last and max include the
 universe offset

---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..8ac8e1d 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From 0d5c2ddc0e70c92042ac577ab14a98b19a103c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 05/18] fix: append_bits with a length of zero leaves the bit
 vector unchanged

It appended a superfluous limb to bit vectors whose length is a multiple of 64,
which all later appends then wrote behind.
---
 src/bit_vec/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 4821490..8ed4cfa 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,11 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        // appending nothing must not append an empty limb
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
-- 
2.43.0


From 329787560fe1171d5fc43b1432a5fb6f7f69bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 06/18] fix: bounds checks of get_bits and unpack_element no
 longer overflow

RsVec::get_bits now returns None for a length of zero like BitVec::get_bits,
instead of panicking at the end of the vector.
---
 src/bit_vec/fast_rs_vec/mod.rs | 4 ++--
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..46f150d 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -349,10 +349,10 @@ impl RsVec {
     /// If the length of the query is larger than 64, None is returned.
     #[must_use]
     pub fn get_bits(&self, pos: usize, len: usize) -> Option<u64> {
-        if len > WORD_SIZE {
+        if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..daabb1f 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.vec.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 8ed4cfa..a50f181 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1171,7 +1171,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1237,7 +1237,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From d04cdca57a58d43d933e3bd74b05d01650d61293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 07/18] fix: MaskedBitVec::get_bits returns all 64 bits of
 unaligned full-word queries

---
 src/bit_vec/mask.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index daabb1f..97e9199 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -149,14 +149,14 @@ where
         if pos % WORD_SIZE + len == WORD_SIZE {
             partial_word
         } else if pos % WORD_SIZE + len < WORD_SIZE {
-            partial_word & ((1 << (len % WORD_SIZE)) - 1)
+            partial_word & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
         } else {
             let next_half = (self.bin_op)(
                 self.vec.data[pos / WORD_SIZE + 1],
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
         }
     }
 
-- 
2.43.0


From 7a6ff11c23d8a7b1aa5a9ed195da5da270d351c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 08/18] fix: skipping a huge number of elements in an iterator
 no longer overflows

---
 src/util/elias_fano_iter.rs | 2 +-
 src/util/general_iter.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 8ac8e1d..277c5aa 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -12,7 +12,7 @@ macro_rules! gen_ef_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if Some(self.index.saturating_add(n - 1)) > self.back_index {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..1bd7703 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -32,7 +32,7 @@ macro_rules! gen_vector_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if Some(self.index.saturating_add(n - 1)) > self.back_index {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
-- 
2.43.0


From e9a96a5422fb4341dfaaecb1550480859192155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 09/18] fix: nth and nth_back past the end exhaust the iterator

The Iterator contract requires all skipped elements to be consumed; the
iterators returned None and then continued to yield elements.
---
 src/util/elias_fano_iter.rs | 12 ++++++++++--
 src/util/general_iter.rs    | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 277c5aa..0d498ab 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -113,7 +113,11 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // skipping past the end exhausts the iterator
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.next()
             }
 
@@ -167,7 +171,11 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // skipping past the end exhausts the iterator
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.next_back()
             }
         }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index 1bd7703..0620cb3 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -118,7 +118,11 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // skipping past the end exhausts the iterator
+                    self.index += self.len();
+                    return None;
+                }
                 self.next()
             }
         }
@@ -148,7 +152,11 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // skipping past the end exhausts the iterator
+                    self.index += self.len();
+                    return None;
+                }
                 self.next_back()
             }
         }
-- 
2.43.0


From 8879902476f976bbca923e47266998b71b499c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 10/18] fix: searches and level queries on empty and
 single-node trees

---
 src/trees/bp/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..1aa6380 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
@@ -706,7 +706,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -715,9 +715,16 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        let last = self.vec.len().checked_sub(1)?;
+
+        // bwd_search doesn't find a node that spans the entire expression
+        if level == 0 {
+            return self.open(last);
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search(last, level as i64)?)
     }
 }
 
-- 
2.43.0


From 54e8cef53e1bd0fb8acd50fffb34fced7a6e2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 11/18] fix: backward search in trees whose block size is not a
 multiple of the lookup size

Table lookups started at the (unaligned) block boundary and overlapped with
already searched bits, which gave wrong results.
---
 src/trees/bp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 1aa6380..749139b 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -314,7 +314,13 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
-        for i in (block_boundary..lookup_boundary)
+        // the boundary down to which we can use table lookups
+        let lower_lookup_boundary = min(
+            lookup_boundary,
+            block_boundary.next_multiple_of(LOOKUP_BLOCK_SIZE as usize),
+        );
+
+        for i in (lower_lookup_boundary..lookup_boundary)
             .step_by(LOOKUP_BLOCK_SIZE as usize)
             .rev()
         {
@@ -329,6 +335,17 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
+        // if the block does not begin at a lookup boundary (which happens if the block size isn't a
+        // multiple of the lookup size)
+        for i in (block_boundary..lower_lookup_boundary).rev() {
+            let bit = self.vec.get_unchecked(i);
+            *relative_excess += if bit == 1 { 1 } else { -1 };
+
+            if *relative_excess == 0 {
+                return Ok(i);
+            }
+        }
+
         Err(())
     }
 
-- 
2.43.0


From 092341019d63b04826f7d5ccf8cc8017fe113a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 12/18] fix: wavelet matrix queries with reversed ranges or
 huge ranks return None instead of overflowing

---
 src/wavelet/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..577a921 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -456,7 +456,8 @@ impl WaveletMatrix {
     /// [`BitVec`]: BitVec
     #[must_use]
     pub fn rank_range(&self, range: Range<usize>, symbol: &BitVec) -> Option<usize> {
-        if range.start >= self.len()
+        if range.start > range.end
+            || range.start >= self.len()
             || range.end > self.len()
             || symbol.len() != self.bits_per_element()
         {
@@ -518,7 +519,11 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
-        if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
+        if range.start > range.end
+            || range.start >= self.len()
+            || range.end > self.len()
+            || self.bits_per_element() > 64
+        {
             None
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
@@ -786,7 +791,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if symbol.get_unchecked((self.bits_per_element() - 1) - level) == 0 {
@@ -866,7 +871,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if (symbol >> ((self.bits_per_element() - 1) - level)) & 1 == 0 {
@@ -1103,7 +1108,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.start >= self.len() || range.end > self.len() || k >= range.len() {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1235,7 +1240,7 @@ impl WaveletMatrix {
         if range.start >= self.len()
             || range.end > self.len()
             || self.bits_per_element() > 64
-            || k >= range.end - range.start
+            || k >= range.len()
         {
             None
         } else {
-- 
2.43.0


From 7986c52115e09841e1e0580f1a919d82673d0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 13/18] fix: unchecked access of sparse vectors at positions
 before the first 1-bit

---
 src/bit_vec/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..482d137 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,8 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        // if the predecessor is None, the bit is left of the first 1-bit
+        self.vec.predecessor(i) == Some(i)
     }
 
     /// Returns true if the bit at position `i` is set.
-- 
2.43.0


From ac8f1018c4677e5baa2fd432839cc509a81424fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:13 +0000
Subject: [PATCH 14/18] fix: tree builder miscounts an event whose recording
 unwound

---
 src/trees/bp/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/builder.rs b/src/trees/bp/builder.rs
index b896d13..cf65578 100644
--- a/src/trees/bp/builder.rs
+++ b/src/trees/bp/builder.rs
@@ -42,13 +42,14 @@ impl<const BLOCK_SIZE: usize> TreeBuilder for BpBuilder<BLOCK_SIZE> {
     type Tree = BpTree<BLOCK_SIZE>;
 
     fn enter_node(&mut self) {
-        self.excess += 1;
+        // count the event only after it was recorded, because recording may unwind
         self.bit_vec.append_bit(1);
+        self.excess += 1;
     }
 
     fn leave_node(&mut self) {
-        self.excess -= 1;
         self.bit_vec.append_bit(0);
+        self.excess -= 1;
     }
 
     fn build(self) -> Result<Self::Tree, i64> {
-- 
2.43.0


From 0dbeb45b898fd9f77c944f7f83f365f804125cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 15/18] fix: bound select's super-block search behind the last
 select block

The dummy select blocks repeated the last real index, so select of a rank
behind the last sample skipped the binary search and scanned all remaining
super-blocks, which is linear instead of the documented logarithmic time.
---
 src/bit_vec/fast_rs_vec/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 46f150d..3950246 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -190,30 +190,27 @@ impl RsVec {
             current_zeros += new_zeros;
         }
 
-        // insert dummy select blocks at the end that just report the same index like the last real
-        // block, so the bound check for binary search doesn't overflow
-        // this is technically the incorrect value, but since all valid queries will be smaller,
-        // this will only tell select to stay in the current super block, which is correct.
-        // we cannot use a real value here, because this would change the size of the super-block
+        // insert dummy select blocks at the end that report the last super-block, so the bound check
+        // for binary search doesn't overflow, and the search for the bits behind the last real
+        // select block is bounded by the end of the vector.
+        let last_super_block = super_blocks.len().saturating_sub(1);
         if last_zero_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
-                index_0: select_blocks[last_zero_select_block].index_0,
+                index_0: last_super_block,
                 index_1: 0,
             });
         } else {
             debug_assert!(select_blocks[last_zero_select_block + 1].index_0 == 0);
-            select_blocks[last_zero_select_block + 1].index_0 =
-                select_blocks[last_zero_select_block].index_0;
+            select_blocks[last_zero_select_block + 1].index_0 = last_super_block;
         }
         if last_one_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
                 index_0: 0,
-                index_1: select_blocks[last_one_select_block].index_1,
+                index_1: last_super_block,
             });
         } else {
             debug_assert!(select_blocks[last_one_select_block + 1].index_1 == 0);
-            select_blocks[last_one_select_block + 1].index_1 =
-                select_blocks[last_one_select_block].index_1;
+            select_blocks[last_one_select_block + 1].index_1 = last_super_block;
         }
 
         total_zeros += current_zeros;
-- 
2.43.0


From 4471ab6cee8de3b5fb871a5c3a463a490725ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 16/18] fix: count the level headers in
 WaveletMatrix::heap_size

The boxed slice of RsVec structs lies on the heap, but was not part of the
reported size.
---
 src/wavelet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 577a921..124e196 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -2063,7 +2063,7 @@ impl WaveletMatrix {
     /// internal data structures.
     #[must_use]
     pub fn heap_size(&self) -> usize {
-        self.data.iter().map(RsVec::heap_size).sum::<usize>()
+        mem::size_of_val(&*self.data) + self.data.iter().map(RsVec::heap_size).sum::<usize>()
     }
 }
 
-- 
2.43.0


From a1132f99af23163f84cdcbf470064a372f2e2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:45 +0000
Subject: [PATCH 17/18] fix: do not overflow when searching a tree for an
 unreachable excess

---
 src/trees/bp/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 749139b..f5274b9 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -167,6 +167,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // no position can have a larger excess, and searching for it could overflow
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         let block_index = (index + 1) / BLOCK_SIZE;
         self.fwd_search_block(index, block_index, &mut relative_excess)
             .map_or_else(
@@ -258,6 +263,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // no position can have a larger excess, and searching for it could overflow
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         // if the index is 0, we cant have a valid result anyway, and this would overflow the
         // subtraction below, so we report None
         if index == 0 {
-- 
2.43.0


From 5e4fbcaad11511ba0f69d644740694a42ce5c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:55 +0000
Subject: [PATCH 18/18] fix: compare the right rank in select1's super-block
 search

The binary search compared the ones before the middle super-block plus a whole
super-block, so it never advanced among sparse ones and left everything to the
linear search, which is linear instead of the documented logarithmic time.
---
 src/bit_vec/fast_rs_vec/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/fast_rs_vec/select.rs b/src/bit_vec/fast_rs_vec/select.rs
index b8721d7..24d3310 100644
--- a/src/bit_vec/fast_rs_vec/select.rs
+++ b/src/bit_vec/fast_rs_vec/select.rs
@@ -391,7 +391,7 @@ impl super::RsVec {
         while upper_bound - super_block > 8 {
             let middle = super_block + ((upper_bound - super_block) >> 1);
             // using select_unpredictable does nothing here, likely because the search isn't hot
-            if ((middle + 1) * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
+            if (middle * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
                 super_block = middle;
             } else {
                 upper_bound = middle;
-- 
2.43.0

