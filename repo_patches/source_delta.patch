From 2b53f3cab75223d089a8df6e02fcfa9e38a3a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 01/11] fix: split_off wrote past the end of the new vector's
 storage

---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2ffe467..883d091 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -449,6 +449,8 @@ other.clear();
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need the storage to cover all the elements
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index b92800e..81f7a58 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need the storage to cover all the elements
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b59a139..263dc1b 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need the storage to cover all the elements
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9a22f41..ca94a02 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need the storage to cover all the elements
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 05af01d..a61149a 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need the storage to cover all the elements
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fd2e0a4..42f5082 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need the storage to cover all the elements
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
-- 
2.43.0


From 4752aa03531d5ffda2f2ca77d92a4cd3ce1815aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 02/11] fix: append left other with elements but no storage
 when block-aligned

---
 enum_vec/gen.sh                  | 2 +-
 enum_vec/src/smallvec_u32/mod.rs | 2 +-
 enum_vec/src/vec_u128/mod.rs     | 1 +
 enum_vec/src/vec_u16/mod.rs      | 1 +
 enum_vec/src/vec_u32/mod.rs      | 1 +
 enum_vec/src/vec_u64/mod.rs      | 1 +
 enum_vec/src/vec_u8/mod.rs       | 1 +
 7 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/enum_vec/gen.sh b/enum_vec/gen.sh
index 9589321..1f4cf47 100755
--- a/enum_vec/gen.sh
+++ b/enum_vec/gen.sh
@@ -5,4 +5,4 @@ cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u16/g' -e 's/StorageBlock = u32/S
 cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u64/g' -e 's/StorageBlock = u32/StorageBlock = u64/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 64/g' -e 's,+ Self::ERROR_TOO_MANY_VARIANTS,//+ Self::ERROR_TOO_MANY_VARIANTS,g' -e 's,const ERROR_TOO_MANY_VARIANTS: usize = [^;]*;,/*&*/,g' > src/vec_u64/mod.rs
 cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u128/g' -e 's/StorageBlock = u32/StorageBlock = u128/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 128/g' -e 's,+ Self::ERROR_TOO_MANY_VARIANTS,//+ Self::ERROR_TOO_MANY_VARIANTS,g' -e 's,const ERROR_TOO_MANY_VARIANTS: usize = [^;]*;,/*&*/,g' > src/vec_u128/mod.rs
 
-cat src/vec_u32/mod.rs | sed -e '2iuse smallvec::SmallVec;' -e 's/vec_u32/smallvec_u32/g' -e 's/StorageBlock = u32/StorageBlock = u32/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 32/g' -e 's/Storage = Vec<StorageBlock>/Storage = SmallVec<[StorageBlock; 4]>/g' -e 's/self.storage.append(&mut other.storage);/self.storage.extend_from_slice(\&other.storage);\nother.clear();/g' > src/smallvec_u32/mod.rs
+cat src/vec_u32/mod.rs | sed -e '2iuse smallvec::SmallVec;' -e 's/vec_u32/smallvec_u32/g' -e 's/StorageBlock = u32/StorageBlock = u32/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 32/g' -e 's/Storage = Vec<StorageBlock>/Storage = SmallVec<[StorageBlock; 4]>/g' -e 's/self.storage.append(&mut other.storage);/self.storage.extend_from_slice(\&other.storage);/g' > src/smallvec_u32/mod.rs
diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 883d091..71ec6e4 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -397,8 +397,8 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.extend_from_slice(&other.storage);
-other.clear();
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 81f7a58..a1572a3 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 263dc1b..3c626a6 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index ca94a02..be29e39 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index a61149a..832b8ed 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 42f5082..2cb810c 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
-- 
2.43.0


From 458b1459d1d65a2942347ada87cf18da22614dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 03/11] fix: remove mixed unused storage bits into the last
 element of a block

---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 71ec6e4..138321c 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -277,6 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits of the block end up inside the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index a1572a3..e98094b 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits of the block end up inside the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 3c626a6..a6d30f6 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits of the block end up inside the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index be29e39..d4525d6 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits of the block end up inside the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 832b8ed..79ef8e7 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits of the block end up inside the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 2cb810c..cdcc53a 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits of the block end up inside the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From 3ea73d756cf61c692e7b25ce1b3a78c41d3c2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 04/11] fix: insert and remove overflowed the shift when one
 element fills a block

---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++++--
 enum_vec/src/vec_u128/mod.rs     | 6 ++++--
 enum_vec/src/vec_u16/mod.rs      | 6 ++++--
 enum_vec/src/vec_u32/mod.rs      | 6 ++++--
 enum_vec/src/vec_u64/mod.rs      | 6 ++++--
 enum_vec/src/vec_u8/mod.rs       | 6 ++++--
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 138321c..d74002e 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -209,7 +209,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -276,7 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused bits of the block end up inside the last element
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index e98094b..13fcf99 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused bits of the block end up inside the last element
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index a6d30f6..8d55034 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused bits of the block end up inside the last element
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index d4525d6..8933dcc 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused bits of the block end up inside the last element
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 79ef8e7..ee4dcd0 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused bits of the block end up inside the last element
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index cdcc53a..3d5d460 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // One element may fill the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused bits of the block end up inside the last element
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
-- 
2.43.0


From e1ecc12c91a162c8e3be9c7297786ef4bf3af588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 05/11] fix: reserve overflowed the number of blocks for
 one-element blocks

---
 enum_vec/src/smallvec_u32/mod.rs | 5 ++++-
 enum_vec/src/vec_u128/mod.rs     | 5 ++++-
 enum_vec/src/vec_u16/mod.rs      | 5 ++++-
 enum_vec/src/vec_u32/mod.rs      | 5 ++++-
 enum_vec/src/vec_u64/mod.rs      | 5 ++++-
 enum_vec/src/vec_u8/mod.rs       | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index d74002e..27d2bc4 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -142,7 +142,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 13fcf99..9c22e2d 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -141,7 +141,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 8d55034..f97fb0f 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -141,7 +141,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 8933dcc..b110ed3 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -141,7 +141,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index ee4dcd0..4be7605 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -141,7 +141,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 3d5d460..4a5334a 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -141,7 +141,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From cecce479f42ee2038df60013086caf64592ab4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 06/11] fix: count all the bits of types with more than 2^32
 variants

---
 enum_vec/src/smallvec_u32/mod.rs | 32 ++++++++++++++++++++++++++++++++
 enum_vec/src/vec_u128/mod.rs     | 32 ++++++++++++++++++++++++++++++++
 enum_vec/src/vec_u16/mod.rs      | 32 ++++++++++++++++++++++++++++++++
 enum_vec/src/vec_u32/mod.rs      | 32 ++++++++++++++++++++++++++++++++
 enum_vec/src/vec_u64/mod.rs      | 32 ++++++++++++++++++++++++++++++++
 enum_vec/src/vec_u8/mod.rs       | 32 ++++++++++++++++++++++++++++++++
 6 files changed, 192 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 27d2bc4..bc8d058 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -66,6 +66,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 9c22e2d..86af49d 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index f97fb0f..95b25fb 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index b110ed3..a42fb2f 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 4be7605..f6dadcd 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 4a5334a..ad181ea 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
-- 
2.43.0


From 8b3bd789d259da8fa791e6da059f3e1fe02031b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 07/11] fix: filling many elements allocated a quadratic amount
 of storage

---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++----
 enum_vec/src/vec_u128/mod.rs     | 6 ++----
 enum_vec/src/vec_u16/mod.rs      | 6 ++----
 enum_vec/src/vec_u32/mod.rs      | 6 ++----
 enum_vec/src/vec_u64/mod.rs      | 6 ++----
 enum_vec/src/vec_u8/mod.rs       | 6 ++----
 6 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index bc8d058..41956ba 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -553,10 +553,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 86af49d..3d45bd1 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -552,10 +552,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 95b25fb..2627d64 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -552,10 +552,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index a42fb2f..7ff4098 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -552,10 +552,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index f6dadcd..9ecddb0 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -552,10 +552,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index ad181ea..d99338c 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -552,10 +552,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
-- 
2.43.0


From 8ec677be825fbb28e2bdcd42ca0996f665d5032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 08/11] fix: insert accepted positions past the end

---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 41956ba..0612ebb 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -251,6 +251,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 3d45bd1..aaadf49 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -250,6 +250,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 2627d64..2ec2657 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -250,6 +250,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 7ff4098..59700c2 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -250,6 +250,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 9ecddb0..b31fca0 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -250,6 +250,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index d99338c..412daf6 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -250,6 +250,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
-- 
2.43.0


From e98e6ce453db585a76adf807878cad191dc87d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 09/11] fix: Values::nth overflowed on large arguments

---
 enum_like/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 035954f..8b7186a 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -630,7 +630,7 @@ impl<T: EnumLike> Iterator for Values<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        if self.current + n < self.max {
+        if n < self.max - self.current {
             self.current += n;
 
             self.next()
-- 
2.43.0


From 965204f9987712f2f6f83839e375b455f121dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 10/11] fix: to_discr of arrays created invalid values

---
 enum_like/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 8b7186a..e8dc8cc 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -364,15 +364,12 @@ macro_rules! array_impls {
     } => {
 unsafe impl<$T0: EnumLike> EnumLike for [$T0; $N] {
     const NUM_VARIANTS: usize = <($($T,)+)>::NUM_VARIANTS;
-    fn to_discr(mut self) -> usize {
-        use std::mem;
-        unsafe {
+    fn to_discr(self) -> usize {
         (
             $(
-                mem::replace(&mut self[$N - 1 - $idx], mem::uninitialized()),
+                self[$N - 1 - $idx],
             )+
         ).to_discr()
-        }
     }
     fn from_discr(x: usize) -> Self {
         let t = <($($T,)+)>::from_discr(x);
-- 
2.43.0


From 134da826b18fe8611e10ac744a98a2c92a101d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 11/11] fix: extend must not count elements that the iterator
 has not given yet

If the iterator panicked, or its lower size hint was above what it yields,
the vector was left with elements that nobody put there.
---
 enum_vec/src/smallvec_u32/mod.rs | 15 ++++-----------
 enum_vec/src/vec_u128/mod.rs     | 15 ++++-----------
 enum_vec/src/vec_u16/mod.rs      | 15 ++++-----------
 enum_vec/src/vec_u32/mod.rs      | 15 ++++-----------
 enum_vec/src/vec_u64/mod.rs      | 15 ++++-----------
 enum_vec/src/vec_u8/mod.rs       | 15 ++++-----------
 6 files changed, 24 insertions(+), 66 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 0612ebb..22fac04 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -948,17 +948,10 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The size hint may be wrong and the iterator may panic, so the
+        // length must not count elements which have not been written yet
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index aaadf49..0b80649 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -947,17 +947,10 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The size hint may be wrong and the iterator may panic, so the
+        // length must not count elements which have not been written yet
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 2ec2657..9f24aac 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -947,17 +947,10 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The size hint may be wrong and the iterator may panic, so the
+        // length must not count elements which have not been written yet
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 59700c2..5ad0e30 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -947,17 +947,10 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The size hint may be wrong and the iterator may panic, so the
+        // length must not count elements which have not been written yet
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index b31fca0..5e157d4 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -947,17 +947,10 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The size hint may be wrong and the iterator may panic, so the
+        // length must not count elements which have not been written yet
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 412daf6..abe30f3 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -947,17 +947,10 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The size hint may be wrong and the iterator may panic, so the
+        // length must not count elements which have not been written yet
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
-- 
2.43.0

