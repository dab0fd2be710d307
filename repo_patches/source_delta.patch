From 65115f3942160d9122e31a5775c4875fc5f2ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 01/17] fix: report an invalid hive signature instead of
 panicking

The signature is the very first field of the base block, so its address equals
the base address.
---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..9aeca0c 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -176,7 +176,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From a19082794379419bb65aa89402710de35b35dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 02/17] fix: return an error for a data offset of 0xFFFFFFFF
 instead of panicking

Such an offset is just another offset beyond the hive data when it comes from a
damaged file.
---
 src/hive.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 9aeca0c..b9430b9 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
-- 
2.43.0


From 4c6a78ed107e23bdb3ddeebe43a9ea5fdccc2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 03/17] fix: return an error for a cell size of zero instead of
 underflowing

---
 src/hive.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hive.rs b/src/hive.rs
index b9430b9..3c5de7f 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -150,6 +150,15 @@ where
             });
         }
 
+        // The cell size includes the cell header.
+        if cell_size < mem::size_of::<CellHeader>() {
+            return Err(NtHiveError::InvalidHeaderSize {
+                offset: self.offset_of_field(&header.size),
+                expected: mem::size_of::<CellHeader>(),
+                actual: cell_size,
+            });
+        }
+
         // Get the actual data range and verify that it's inside our hive data.
         let remaining_range = cell_data_offset..self.data.len();
         let cell_data_size = cell_size - mem::size_of::<CellHeader>();
-- 
2.43.0


From 13039b60c12cf922cc0de50e4128b5e133879e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 04/17] fix: report the offset of the data for a wrong DWORD or
 QWORD size

The offset was calculated from the address of the local slice reference, and
calculating it panicked if the hive bytes are located at a higher address.
---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 3c5de7f..55acc84 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -178,8 +178,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const u8 as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From a0d2caa090305e3bbe0ff5201aeb847e18f65185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 05/17] fix: make size_hint, count, and last of BigDataSlices
 agree with next

The list of segments may be longer than what is needed for the data.
---
 src/big_data.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..25aa06e 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -253,7 +253,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -281,7 +282,9 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // The segment list may have more items than the data needs.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From bc40702c647c37d844fb03b5ca0da4a9454ea845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 06/17] fix: exhaust iterators when nth is called with a huge
 number

The iterators returned None, but continued with their next item afterwards.
---
 src/big_data.rs        | 10 ++++------
 src/helpers.rs         |  8 ++++++++
 src/index_root.rs      |  5 ++---
 src/key_values_list.rs | 20 +++++++++++---------
 src/leaf.rs            | 13 ++++---------
 5 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 25aa06e..15549e1 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -12,7 +12,7 @@ use zerocopy::{
 };
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 
 /// Number of bytes that a single Big Data segment can hold.
@@ -169,8 +169,7 @@ impl Iterator for BigDataListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(&mut self.items_range, n, mem::size_of::<BigDataListItem>());
         self.next()
     }
 
@@ -268,14 +267,13 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
         if self.bytes_left == 0 {
             return None;
         }
 
-        // This calculation is safe considering that we have checked the
-        // multiplication and subtraction above.
+        // This calculation is safe considering that `n` segments are less than the data size.
         self.big_data_list_item_ranges.items_range.start += n * mem::size_of::<BigDataListItem>();
 
         self.next()
diff --git a/src/helpers.rs b/src/helpers.rs
index 731f541..fa6a7b7 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -30,6 +30,14 @@ pub(crate) fn byte_subrange(range: &Range<usize>, byte_count: usize) -> Option<R
     Some(range.start..subrange_end)
 }
 
+/// Advances the start of a range of equally sized items by `n` items, but never beyond its end.
+pub(crate) fn skip_items(range: &mut Range<usize>, n: usize, item_size: usize) {
+    range.start = n
+        .checked_mul(item_size)
+        .and_then(|byte_count| range.start.checked_add(byte_count))
+        .map_or(range.end, |start| start.min(range.end));
+}
+
 #[cfg(test)]
 pub mod tests {
     use std::fs::File;
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..59c3335 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -12,7 +12,7 @@ use zerocopy::{
 };
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 use crate::key_node::{KeyNode, KeyNodeMut};
 use crate::leaf::LeafItemRanges;
@@ -97,8 +97,7 @@ impl Iterator for IndexRootItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(&mut self.items_range, n, mem::size_of::<IndexRootItem>());
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..be82b0a 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -9,7 +9,7 @@ use zerocopy::byteorder::LittleEndian;
 use zerocopy::{FromBytes, Immutable, IntoBytes, KnownLayout, Ref, SplitByteSlice, Unaligned, U32};
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 use crate::key_value::KeyValue;
 
@@ -98,8 +98,11 @@ impl Iterator for KeyValuesListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(
+            &mut self.items_range,
+            n,
+            mem::size_of::<KeyValuesListItem>(),
+        );
         self.next()
     }
 
@@ -172,12 +175,11 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.key_values_list_item_ranges.items_range.start = self
-            .key_values_list_item_ranges
-            .items_range
-            .start
-            .checked_add(bytes_to_skip)?;
+        skip_items(
+            &mut self.key_values_list_item_ranges.items_range,
+            n,
+            mem::size_of::<KeyValuesListItem>(),
+        );
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..0b9bdf5 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -12,7 +12,7 @@ use zerocopy::{
 };
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 use crate::index_root::IndexRootItemRange;
 use crate::key_node::{KeyNode, KeyNodeMut};
@@ -205,8 +205,7 @@ impl Iterator for LeafItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(&mut self.items_range, n, self.leaf_type.item_size());
         self.next()
     }
 
@@ -287,12 +286,8 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
-        self.leaf_item_ranges.items_range.start = self
-            .leaf_item_ranges
-            .items_range
-            .start
-            .checked_add(bytes_to_skip)?;
+        let item_size = self.leaf_item_ranges.leaf_type.item_size();
+        skip_items(&mut self.leaf_item_ranges.items_range, n, item_size);
         self.next()
     }
 
-- 
2.43.0


From 60cfb3aa7b22d43126963b9a0b3b15e7101d5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 07/17] fix: return the error when KeyNode::value comes across
 an unreadable name

It returned the value with the unreadable name as a match.
---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From 2ae1e36adab3818e416eeb7b7bd3b38a302a7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 08/17] fix: decode surrogate pairs across Big Data segments in
 string_data

Each segment was decoded on its own, so a surrogate pair split over two segments
became two replacement characters.
---
 src/key_value.rs | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..ccbfc1c 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -207,36 +207,33 @@ where
         I: Iterator<Item = Result<&'h [u8]>>,
     {
         let mut string = String::new();
+        let mut error = None;
 
         // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
-        // Transparently concatenate them in the output string.
-        for slice_data in iter {
-            let slice_data = slice_data?;
-
-            let u16_iter = slice_data
-                .chunks_exact(2)
-                .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
-
-            // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
-            // Hence, the count of UTF-16 code points is a good estimate for the final string length.
-            string.reserve(u16_iter.len());
-
-            // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
-
-            for c in char_iter {
-                // Some applications erroneously store NUL-terminated strings in the registry.
-                // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
-                if c == '\0' {
-                    return Ok(string);
-                } else {
-                    string.push(c);
-                }
+        // Transparently concatenate them before decoding, because a segment may end in the middle of a surrogate pair.
+        let u16_iter = iter
+            .map_while(|slice_data| slice_data.map_err(|e| error = Some(e)).ok())
+            .flat_map(|slice_data| slice_data.chunks_exact(2))
+            .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
+
+        // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
+        let char_iter =
+            char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
+
+        for c in char_iter {
+            // Some applications erroneously store NUL-terminated strings in the registry.
+            // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
+            if c == '\0' {
+                return Ok(string);
+            } else {
+                string.push(c);
             }
         }
 
-        Ok(string)
+        match error {
+            Some(e) => Err(e),
+            None => Ok(string),
+        }
     }
 
     /// Checks if this is a `REG_SZ` or `REG_EXPAND_SZ` Key Value
-- 
2.43.0


From 70f8ac71180de0bea696f492df5f4e45adf5e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 09/17] fix: decode surrogate pairs across Big Data segments in
 multi_string_data

Same as for string_data: a segment may end in the middle of a surrogate pair.
---
 src/key_value.rs | 55 ++++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index ccbfc1c..0bd3741 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -23,7 +23,7 @@ use crate::string::NtHiveNameString;
 use {
     alloc::{string::String, vec::Vec},
     core::{
-        char::{self, DecodeUtf16, DecodeUtf16Error},
+        char,
         iter::{self, FusedIterator, Map},
         slice::ChunksExact,
     },
@@ -425,10 +425,7 @@ where
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
 #[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
-    fn(Result<char, DecodeUtf16Error>) -> char,
->;
+type RegMultiSZU16Iter<'h> = Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>;
 
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
@@ -436,7 +433,7 @@ pub struct RegMultiSZStrings<'h, B>
 where
     B: SplitByteSlice + 'h,
 {
-    char_iter: Option<RegMultiSZCharIter<'h>>,
+    u16_iter: Option<RegMultiSZU16Iter<'h>>,
     big_iter: Option<BigDataSlices<'h, B>>,
 }
 
@@ -447,34 +444,27 @@ where
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            u16_iter: Some(Self::make_u16_iter(data)),
             big_iter: None,
         }
     }
 
     fn big(iter: BigDataSlices<'h, B>) -> Self {
         Self {
-            char_iter: None,
+            u16_iter: None,
             big_iter: Some(iter),
         }
     }
 
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
-        let u16_iter = slice_data
+    fn make_u16_iter(slice_data: &'h [u8]) -> RegMultiSZU16Iter<'h> {
+        slice_data
             .chunks_exact(2)
-            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
+            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16)
     }
 
     fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
         u16::from_le_bytes(two_bytes.try_into().unwrap())
     }
-
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
-    }
 }
 
 #[cfg(feature = "alloc")]
@@ -485,11 +475,11 @@ where
     type Item = Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut string = String::new();
+        let mut code_units = Vec::new();
 
         'outer_loop: loop {
-            let char_iter = match self.char_iter.as_mut() {
-                Some(char_iter) => char_iter,
+            let u16_iter = match self.u16_iter.as_mut() {
+                Some(u16_iter) => u16_iter,
                 None => {
                     let big_iter = match self.big_iter.as_mut() {
                         Some(big_iter) => big_iter,
@@ -500,34 +490,35 @@ where
                         Some(Err(e)) => return Some(Err(e)),
                         None => break 'outer_loop,
                     };
-                    let char_iter = Self::make_char_iter(slice_data);
-                    self.char_iter = Some(char_iter);
+                    let u16_iter = Self::make_u16_iter(slice_data);
+                    self.u16_iter = Some(u16_iter);
                     continue 'outer_loop;
                 }
             };
 
-            for c in char_iter {
+            for code_unit in u16_iter {
                 // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
                 // The final string has a double-NUL termination.
                 //
                 // However, we will happily accept data without terminating NUL characters as well.
-                if c == '\0' {
+                if code_unit == 0 {
                     break 'outer_loop;
                 } else {
-                    string.push(c);
+                    code_units.push(code_unit);
                 }
             }
 
-            // We have fully iterated all characters of this slice.
-            // Get a new `char_iter` in the next iteration of the outer loop, and concatenate characters
-            // to our `string` until we find a NUL or no more data.
-            self.char_iter = None;
+            // We have fully iterated all code units of this slice.
+            // Get a new `u16_iter` in the next iteration of the outer loop, and concatenate code units
+            // until we find a NUL or no more data.
+            // Decoding is only done afterwards, because a slice may end in the middle of a surrogate pair.
+            self.u16_iter = None;
         }
 
-        if string.is_empty() {
+        if code_units.is_empty() {
             None
         } else {
-            Some(Ok(string))
+            Some(Ok(String::from_utf16_lossy(&code_units)))
         }
     }
 }
-- 
2.43.0


From 69c54e827bd88879238ae1592f2a154d0e0d5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 10/17] fix: make RegMultiSZStrings a fused iterator as
 promised

It continued with the data after the empty string terminating the list.
---
 src/key_value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key_value.rs b/src/key_value.rs
index 0bd3741..6af6168 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -516,6 +516,9 @@ where
         }
 
         if code_units.is_empty() {
+            // An empty string terminates the list, even if more data follows.
+            self.u16_iter = None;
+            self.big_iter = None;
             None
         } else {
             Some(Ok(String::from_utf16_lossy(&code_units)))
-- 
2.43.0


From 1dfdde194f773217a34a20a1a8e5c469983f36bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 11/17] fix: bound the recursion of clear_volatile_subkeys

A hive whose subkeys form a cycle made it overflow the stack, and one whose
subkeys are shared between keys made it run for exponential time.
---
 src/error.rs    |  2 ++
 src/hive.rs     |  8 +++++++-
 src/key_node.rs | 31 +++++++++++++++++++++++++++++--
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 562a20b..4a7e8a1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -31,6 +31,8 @@ pub enum NtHiveError {
         expected: usize,
         actual: usize,
     },
+    #[error("The key node at offset {offset:#010x} is part of a key tree that is cyclic or nested too deeply")]
+    InvalidKeyNodeTree { offset: usize },
     #[error("Expected one of the key value data types {expected:?}, but found {actual:?}")]
     InvalidKeyValueDataType {
         expected: &'static [KeyValueDataType],
diff --git a/src/hive.rs b/src/hive.rs
index 55acc84..ba9c48b 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -16,6 +16,9 @@ use crate::error::{NtHiveError, Result};
 use crate::helpers::byte_subrange;
 use crate::key_node::{KeyNode, KeyNodeMut};
 
+/// Windows supports at most this many levels of subkeys below the root key.
+const MAX_KEY_NODE_DEPTH: usize = 512;
+
 #[derive(FromBytes, Immutable, IntoBytes, KnownLayout, Unaligned)]
 #[repr(packed)]
 struct CellHeader {
@@ -375,8 +378,11 @@ where
     /// This needs to be done before passing the hive to an NT kernel during boot.
     /// See <https://github.com/reactos/reactos/pull/1883> for more information.
     pub fn clear_volatile_subkeys(&mut self) -> Result<()> {
+        // The hive data cannot contain more key nodes than this.
+        let mut remaining_key_nodes = self.data.len() / KeyNodeMut::<B>::MIN_CELL_SIZE;
+
         let mut root_key_node = self.root_key_node_mut()?;
-        root_key_node.clear_volatile_subkeys()
+        root_key_node.clear_volatile_subkeys(MAX_KEY_NODE_DEPTH, &mut remaining_key_nodes)
     }
 
     pub(crate) fn root_key_node_mut(&mut self) -> Result<KeyNodeMut<B>> {
diff --git a/src/key_node.rs b/src/key_node.rs
index 5bcc9f9..8341917 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -489,6 +489,9 @@ impl<'h, B> KeyNodeMut<'h, B>
 where
     B: SplitByteSliceMut,
 {
+    /// Size of the smallest cell that can contain a Key Node.
+    pub(crate) const MIN_CELL_SIZE: usize = mem::size_of::<u32>() + mem::size_of::<KeyNodeHeader>();
+
     pub(crate) fn from_cell_range(hive: &'h mut Hive<B>, cell_range: Range<usize>) -> Result<Self> {
         let item_range = KeyNodeItemRange::from_cell_range(hive, cell_range)?;
         Ok(Self { hive, item_range })
@@ -502,20 +505,44 @@ where
         Ok(Self { hive, item_range })
     }
 
-    pub(crate) fn clear_volatile_subkeys(&mut self) -> Result<()> {
+    /// Clears the `volatile_subkey_count` field of this key node and its subkeys recursively.
+    ///
+    /// The recursion is bounded by `max_depth` levels of subkeys and by `remaining_key_nodes`,
+    /// because the subkeys of a malformed hive may form cycles.
+    pub(crate) fn clear_volatile_subkeys(
+        &mut self,
+        max_depth: usize,
+        remaining_key_nodes: &mut usize,
+    ) -> Result<()> {
+        *remaining_key_nodes = remaining_key_nodes
+            .checked_sub(1)
+            .ok_or_else(|| self.invalid_tree_error())?;
+
         let mut header = self.item_range.header_mut(self.hive);
         header.volatile_subkey_count.set(0);
 
         if let Some(subkeys) = self.subkeys_mut() {
             let mut subkeys = subkeys?;
             while let Some(subkey) = subkeys.next() {
-                subkey?.clear_volatile_subkeys()?;
+                let mut subkey = subkey?;
+                let max_depth = max_depth
+                    .checked_sub(1)
+                    .ok_or_else(|| subkey.invalid_tree_error())?;
+                subkey.clear_volatile_subkeys(max_depth, remaining_key_nodes)?;
             }
         }
 
         Ok(())
     }
 
+    fn invalid_tree_error(&self) -> NtHiveError {
+        NtHiveError::InvalidKeyNodeTree {
+            offset: self
+                .hive
+                .offset_of_data_offset(self.item_range.header_range.start),
+        }
+    }
+
     pub(crate) fn subkeys_mut(&mut self) -> Option<Result<SubKeyNodesMut<B>>> {
         let cell_range = iter_try!(self.item_range.subkeys_cell_range(self.hive)?);
         Some(SubKeyNodesMut::new(self.hive, cell_range))
-- 
2.43.0


From 39a76f97cd30d138a1ffa0bbdaa8eb7109164a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 12/17] fix: handle huge key value counts on 32-bit platforms

The calculation of the byte count overflowed.
---
 src/key_values_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index be82b0a..fbdf42d 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -58,7 +58,8 @@ impl KeyValuesListItemRanges {
         count_field_offset: usize,
         cell_range: Range<usize>,
     ) -> Result<Self> {
-        let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();
+        // `count` is an arbitrary u32, so this may overflow on 32-bit platforms.
+        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
 
         let items_range = byte_subrange(&cell_range, byte_count).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
-- 
2.43.0


From a76d48220e20be7e3249d3636aedefa7e834027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 13/17] fix: handle huge data offsets on 32-bit platforms

Reporting an error for an offset near 4 GiB overflowed.
---
 src/hive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index ba9c48b..38d0055 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -191,7 +191,8 @@ where
 
     /// Calculate a data offset's offset from the very beginning of the hive bytes.
     pub(crate) fn offset_of_data_offset(&self, data_offset: usize) -> usize {
-        data_offset + mem::size_of::<HiveBaseBlock>()
+        // `data_offset` may be an arbitrary u32, so this may overflow on 32-bit platforms.
+        data_offset.saturating_add(mem::size_of::<HiveBaseBlock>())
     }
 
     /// Returns the major version of this hive.
-- 
2.43.0


From d34c5a7756293bf0e944191ab1dbee0e6626fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 14/17] fix: do not swap the expected and the actual checksum
 in InvalidChecksum

The checksum in the base block is the actual one.
---
 src/hive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 38d0055..0d242d3 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -256,8 +256,8 @@ where
             Ok(())
         } else {
             Err(NtHiveError::InvalidChecksum {
-                expected: checksum,
-                actual: calculated_checksum,
+                expected: calculated_checksum,
+                actual: checksum,
             })
         }
     }
-- 
2.43.0


From a402fa05c4b5fc8d021fe90e341904b81c7aad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 15/17] fix: do not swap the sizes in InvalidSizeField for data
 sizes

Everywhere else, `expected` is the size specified by the field and `actual` is
the available size.
---
 src/big_data.rs  | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 15549e1..4bc2f69 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -101,8 +101,8 @@ impl BigDataListItemRanges {
         if data_size > max_data_size {
             return Err(NtHiveError::InvalidSizeField {
                 offset: data_size_field_offset,
-                expected: max_data_size,
-                actual: data_size,
+                expected: data_size,
+                actual: max_data_size,
             });
         }
 
diff --git a/src/key_value.rs b/src/key_value.rs
index 6af6168..6b3d9bb 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -158,8 +158,8 @@ where
             if data_size > mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidSizeField {
                     offset: self.hive.offset_of_field(&header.data_size),
-                    expected: mem::size_of::<u32>(),
-                    actual: data_size,
+                    expected: data_size,
+                    actual: mem::size_of::<u32>(),
                 });
             }
 
-- 
2.43.0


From a6f96050b760f0e2a7880f32ba7bbc5d570c4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 16/17] fix: do not pad every single character when formatting
 names

A width given in the format string was applied to each character of the name.
---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 7c16954..c45b0fd 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -3,7 +3,7 @@
 
 use core::char;
 use core::cmp::Ordering;
-use core::fmt;
+use core::fmt::{self, Write};
 
 #[cfg(feature = "alloc")]
 use alloc::string::String;
@@ -1346,7 +1346,7 @@ impl fmt::Display for NtHiveNameString<'_> {
             Self::Latin1(bytes) => {
                 for byte in bytes.iter() {
                     let single_char = *byte as char;
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
             Self::Utf16LE(_) => {
@@ -1354,7 +1354,7 @@ impl fmt::Display for NtHiveNameString<'_> {
                     .map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
 
                 for single_char in utf16_iter {
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
         }
-- 
2.43.0


From 771a51cf253a5f12877a126e21b84655c763161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 17/17] fix: read large data in hives predating Big Data
 structures

Big Data structures exist since version 1.4 of the format (Windows XP Beta).
Hives of version 1.3 store data of any size in a single cell.
---
 src/key_value.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 6b3d9bb..9599d5d 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -16,7 +16,7 @@ use zerocopy::{
 use crate::big_data::{BigDataSlices, BIG_DATA_SEGMENT_SIZE};
 use crate::error::{NtHiveError, Result};
 use crate::helpers::byte_subrange;
-use crate::hive::Hive;
+use crate::hive::{Hive, HiveMinorVersion};
 use crate::string::NtHiveNameString;
 
 #[cfg(feature = "alloc")]
@@ -167,8 +167,11 @@ where
             let data_end = data_start + data_size;
 
             Ok(KeyValueData::Small(&self.hive.data[data_start..data_end]))
-        } else if data_size <= BIG_DATA_SEGMENT_SIZE {
+        } else if data_size <= BIG_DATA_SEGMENT_SIZE
+            || self.hive.minor_version() < HiveMinorVersion::WindowsXPBeta as u32
+        {
             // The entire data is stored in a single cell referenced by `data_offset`.
+            // This is also the case for larger data in hives predating Big Data structures.
             let cell_range = self
                 .hive
                 .cell_range_from_data_offset(header.data_offset.get())?;
-- 
2.43.0

