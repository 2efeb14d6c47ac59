From c2986bab5e42ac24a4407e178473aa0237885a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 01/54] fix: release the shared buffer when foreign Bytes is
 converted to Vec or BytesMut

---
 src/bytes_1/shared_bytes.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..c832ea6 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -23,25 +23,23 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
-        if len == 0 {
-            return Vec::new();
-        }
+    to_vec: |data, ptr, len| {
         let mut vec = Vec::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            // the `Bytes` was consumed, so its reference has to be released
+            release(data);
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
-        if len == 0 {
-            return bytes::BytesMut::new();
-        }
+    to_mut: |data, ptr, len| {
         let mut vec = bytes::BytesMut::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            // the `Bytes` was consumed, so its reference has to be released
+            release(data);
         }
         vec
     },
@@ -50,18 +48,21 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         let meta = &*(p as *const crate::SharedBytesMeta);
         meta.refcnt.load(Ordering::Relaxed) == 1
     },
-    drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
-            return;
-        }
-        let layout =
-            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
-    },
+    drop: |data, _ptr, _len| unsafe { release(data) },
 };
 
+#[cfg(not(feature = "bytes_1_safe"))]
+/// Releases one reference to the shared buffer, deallocating it if it was the last.
+unsafe fn release(data: &AtomicPtr<()>) {
+    let p = data.load(Ordering::Relaxed) as *mut u8;
+    let meta = unsafe { &*(p as *const crate::SharedBytesMeta) };
+    if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        return;
+    }
+    let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
+    unsafe { alloc::alloc::dealloc(p, layout) };
+}
+
 #[cfg(feature = "bytes_1_safe")]
 #[cfg_attr(docsrs, doc(cfg(feature = "bytes_1")))]
 impl From<SharedBytes> for bytes::Bytes {
-- 
2.43.0


From 70aaa25146a47fa76f5576b5b02ec40818756683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 02/54] fix: keep the moved chamber chunk counted when
 appending queues

---
 src/queue/linked_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..892cb48 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -272,8 +272,9 @@ impl<'a> LinkedRoot<'a> {
             other.count -= 1;
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
             if let Some(fst) = unsafe { other.first.as_mut() } {
-                if let Err(val) = fst.data.push_front(chamber) {
-                    self.push_back(val);
+                match fst.data.push_front(chamber) {
+                    Ok(()) => other.count += 1,
+                    Err(val) => self.push_back(val),
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From fcd5a7d0cd1064bea72fa1904355e2843716f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 03/54] fix: report an emptied external value as empty

---
 src/bytedata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..62258c1 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -491,7 +491,7 @@ impl<'a> ByteData<'a> {
             }
             .is_empty(),
             #[cfg(feature = "alloc")]
-            Kind::External => false,
+            Kind::External => self.len() == 0,
         }
     }
 
-- 
2.43.0


From d141285ce05cfa993e51f94923d6d0f282debd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 04/54] fix: reject slice ranges whose bounds overflow instead
 of wrapping around

---
 src/byte_chunk.rs       | 33 +++-----------------------------
 src/external.rs         | 26 ++-----------------------
 src/lib.rs              | 27 ++++++++++++++++++++++++++
 src/queue/byte_queue.rs | 31 ++----------------------------
 src/shared_bytes.rs     | 42 +++++++----------------------------------
 src/stringdata.rs       | 22 ++-------------------
 6 files changed, 43 insertions(+), 138 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..805b589 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -127,16 +127,7 @@ impl ByteChunk {
         &'_ self,
         range: R,
     ) -> Self {
-        let start = match range.start_bound() {
-            core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
-            core::ops::Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
-            core::ops::Bound::Excluded(&end) => end,
-            core::ops::Bound::Unbounded => self.len as usize,
-        };
+        let (start, end) = crate::resolve_range(&range, self.len as usize);
         let mut ret = *self;
         Self::slice(&mut ret, start, end);
         ret
@@ -149,16 +140,7 @@ impl ByteChunk {
         mut self,
         range: R,
     ) -> Self {
-        let start = match range.start_bound() {
-            core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
-            core::ops::Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
-            core::ops::Bound::Excluded(&end) => end,
-            core::ops::Bound::Unbounded => self.len as usize,
-        };
+        let (start, end) = crate::resolve_range(&range, self.len as usize);
         Self::slice(&mut self, start, end);
         self
     }
@@ -169,16 +151,7 @@ impl ByteChunk {
         &'_ mut self,
         range: R,
     ) {
-        let start = match range.start_bound() {
-            core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
-            core::ops::Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
-            core::ops::Bound::Excluded(&end) => end,
-            core::ops::Bound::Unbounded => self.len as usize,
-        };
+        let (start, end) = crate::resolve_range(&range, self.len as usize);
         Self::slice(self, start, end);
     }
 }
diff --git a/src/external.rs b/src/external.rs
index ed01151..f52a30e 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -240,18 +240,7 @@ impl ExtBytes {
         // SAFETY: `data` is a valid pointer to `ExtBytesRef`.
         let dd = unsafe { &mut *self.data.cast_mut() };
         let len = dd.len();
-        let start = match range.start_bound() {
-            core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
-            core::ops::Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
-            core::ops::Bound::Excluded(&end) => end,
-            core::ops::Bound::Unbounded => len,
-        };
-        assert!(end <= len && start <= len, "index out of bounds");
-        assert!(end >= start, "end < start");
+        let (start, end) = crate::resolve_range(&range, len);
         let new_len = end - start;
         // SAFETY: `dd.ptr` is a valid pointer to `u8`.
         dd.ptr = unsafe { dd.ptr.add(start) };
@@ -273,18 +262,7 @@ impl ExtBytes {
         // SAFETY: `data` is a valid pointer to `ExtBytesRef`.
         let dd = unsafe { &*self.data };
         let len = dd.len();
-        let start = match range.start_bound() {
-            core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
-            core::ops::Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
-            core::ops::Bound::Excluded(&end) => end,
-            core::ops::Bound::Unbounded => len,
-        };
-        assert!(end <= len && start <= len, "index out of bounds");
-        assert!(end >= start, "end < start");
+        let (start, end) = crate::resolve_range(&range, len);
         let new_len = end - start;
         if new_len <= crate::byte_chunk::ByteChunk::LEN {
             // SAFETY: `dd.ptr` is a valid pointer to `u8`.
diff --git a/src/lib.rs b/src/lib.rs
index ce74d1c..1434d2a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -231,6 +231,33 @@ mod nom_7;
 #[cfg_attr(docsrs, doc(cfg(feature = "serde_1")))]
 mod serde_1;
 
+/// Resolve a range against a length.
+///
+/// # Panics
+///
+/// Panics if the range does not lie within `0..len`.
+#[inline]
+pub(crate) fn resolve_range<R: core::ops::RangeBounds<usize>>(
+    range: &R,
+    len: usize,
+) -> (usize, usize) {
+    let start = match range.start_bound() {
+        core::ops::Bound::Included(&start) => Some(start),
+        core::ops::Bound::Excluded(&start) => start.checked_add(1),
+        core::ops::Bound::Unbounded => Some(0),
+    };
+    let end = match range.end_bound() {
+        core::ops::Bound::Included(&end) => end.checked_add(1),
+        core::ops::Bound::Excluded(&end) => Some(end),
+        core::ops::Bound::Unbounded => Some(len),
+    };
+    match (start, end) {
+        (Some(start), Some(end)) if start <= end && end <= len => (start, end),
+        #[allow(clippy::panic)]
+        _ => panic!("range {start:?}..{end:?} is out of bounds for length {len}"),
+    }
+}
+
 /// Checks if two byte slices are equal in a `const` context.
 /// This is however not a *constant time* equality check, as it will return `false` as early as possible.
 #[must_use]
diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..0ee38da 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -1,4 +1,4 @@
-use core::{ops::RangeBounds, panic};
+use core::ops::RangeBounds;
 
 use crate::ByteData;
 
@@ -162,34 +162,7 @@ impl<'a> ByteQueue<'a> {
     ///
     /// Panics if the range is out of bounds.
     pub(super) fn check_range(&self, range: impl RangeBounds<usize>) -> (usize, usize) {
-        let max = match range.end_bound() {
-            core::ops::Bound::Excluded(&0) => 0,
-            core::ops::Bound::Included(vv) if *vv < self.remain => *vv + 1,
-            #[allow(clippy::panic)]
-            core::ops::Bound::Included(vv) => panic!(
-                "slicing outside of max bound `..={}` where the maximum is {}",
-                *vv, self.remain
-            ),
-            core::ops::Bound::Excluded(vv) if *vv <= self.remain => *vv,
-            #[allow(clippy::panic)]
-            core::ops::Bound::Excluded(vv) => panic!(
-                "slicing outside of max bound `..{}` where the maximum is {}",
-                *vv, self.remain
-            ),
-            core::ops::Bound::Unbounded => self.remain,
-        };
-        let start = match range.start_bound() {
-            core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
-            core::ops::Bound::Unbounded => 0,
-        };
-        assert!(
-            start <= max,
-            "slicing starting outside of maximum bound `{}..` where the maximum is {}",
-            start,
-            self.remain
-        );
-        (start, max)
+        crate::resolve_range(&range, self.remain)
     }
 
     /// Return a slice of the buffer.
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..5eeaea8 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -1,4 +1,4 @@
-use core::ops::{Bound, Deref, Index, RangeBounds};
+use core::ops::{Deref, Index, RangeBounds};
 
 type RefCounter = core::sync::atomic::AtomicU32;
 
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -286,17 +286,7 @@ impl SharedBytes {
     #[inline]
     #[must_use]
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
-        let start = match range.start_bound() {
-            Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
-            Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
-            Bound::Excluded(end) => *end,
-            Bound::Unbounded => self.len as usize,
-        };
-        assert!(end >= start, "SharedBytes::sliced_range: end < start");
+        let (start, end) = crate::resolve_range(&range, self.len as usize);
         self.sliced(start, end - start)
     }
 
@@ -314,7 +304,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +325,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -352,16 +342,7 @@ impl SharedBytes {
     #[must_use]
     #[allow(clippy::cast_possible_truncation)]
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
-        let start = match range.start_bound() {
-            Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
-            Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
-            Bound::Excluded(end) => *end,
-            Bound::Unbounded => self.len as usize,
-        };
+        let (start, end) = crate::resolve_range(&range, self.len as usize);
         self.into_sliced(start, end - start)
     }
 
@@ -373,16 +354,7 @@ impl SharedBytes {
     #[inline]
     #[allow(clippy::cast_possible_truncation)]
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
-        let start = match range.start_bound() {
-            Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
-            Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
-            Bound::Excluded(end) => *end,
-            Bound::Unbounded => self.len as usize,
-        };
+        let (start, end) = crate::resolve_range(&range, self.len as usize);
         self.make_sliced(start, end - start)
     }
 
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..0b489e5 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -1,5 +1,5 @@
 use core::{
-    ops::{Bound, Deref, RangeBounds},
+    ops::{Deref, RangeBounds},
     slice::SliceIndex,
 };
 
@@ -282,25 +282,7 @@ impl<'a> StringData<'a> {
         range: R,
     ) -> core::ops::Range<usize> {
         let by = self.data.as_slice();
-        let start = match range.start_bound() {
-            Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
-            Bound::Unbounded => 0,
-        };
-        let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
-            Bound::Excluded(end) => *end,
-            Bound::Unbounded => self.len(),
-        };
-        assert!(end >= start, "StringData::check_sliced: end < start");
-        assert!(
-            start <= by.len(),
-            "StringData::check_sliced: start > bytes.len()"
-        );
-        assert!(
-            end <= by.len(),
-            "StringData::check_sliced: end > bytes.len()"
-        );
+        let (start, end) = crate::resolve_range(&range, by.len());
         assert!(
             end == by.len() || by[end] & 0b1100_0000 != 0b1000_0000,
             "StringData::check_sliced: end is not a char boundary"
-- 
2.43.0


From 0ce711e381067a83604ef081ec60c63fac808f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 05/54] fix: include the newline in the line taken from a
 StringData

---
 src/stringdata.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index 0b489e5..c270eba 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -349,8 +349,9 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
-        let av = self.sliced(0..position);
-        self.make_sliced(position..);
+        let end = position + 1;
+        let av = self.sliced(0..end);
+        self.make_sliced(end..);
         av
     }
 
-- 
2.43.0


From f1f7bdc55e45a2e06392cfdacc0ed5e1c4a16f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 06/54] fix: count text chunks in the length when extending a
 byte queue

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0ee38da..e6012e0 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -672,7 +672,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i.into_bytedata());
         }
     }
 }
@@ -681,7 +681,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -693,7 +693,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From b3187ffeac40a52eb08d781c80db09b5c63a001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 07/54] fix: keep the right part of the last chunk when
 limiting an owned byte iterator

---
 src/queue/byte_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..576684c 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,7 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            av.make_sliced(..n - self.len());
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From ebda24b79944924ee1913880cf8165b25affadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 08/54] fix: skipping past the end of a byte iterator must not
 wrap around

---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 576684c..9a6f7d8 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0


From f598849eeb5ea9ad0a24aed105209968f2223294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 09/54] fix: split queues at the separators instead of
 repeating and looping

---
 src/queue/byte_queue.rs |  2 +-
 src/queue/split.rs      | 67 +++++++++--------------------------------
 2 files changed, 15 insertions(+), 54 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index e6012e0..dfd133c 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -264,7 +264,7 @@ impl<'a> ByteQueue<'a> {
 
     /// Check if the queue contains a certain byte sequence and return its starting position.
     #[inline]
-    pub(crate) fn find_slice_pos(
+    fn find_slice_pos(
         &self,
         data: &[u8],
         start_chunk: usize,
diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..100d6e0 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -3,8 +3,7 @@
 pub struct SplitOn<'a, 'b> {
     queue: &'b super::ByteQueue<'a>,
     needle: &'b [u8],
-    start_chunk: usize,
-    start_offset: usize,
+    /// The position of the first byte of the next part.
     start_byte: usize,
     max: usize,
     done: bool,
@@ -16,8 +15,6 @@ impl<'a, 'b> SplitOn<'a, 'b> {
         Self {
             queue,
             needle,
-            start_chunk: 0,
-            start_offset: 0,
             start_byte: 0,
             max,
             done,
@@ -30,60 +27,24 @@ impl<'a> Iterator for SplitOn<'a, '_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        fn inner<'a>(this: &mut SplitOn<'a, '_>) -> super::ByteQueue<'a> {
-            let val = this.queue.find_slice_pos(
-                this.needle,
-                this.start_chunk,
-                this.start_offset,
-                this.start_byte,
-            );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
-                this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
-                if this.max != 0 {
-                    this.max -= 1;
-                }
-                new_q
-            } else {
-                this.done = true;
-                this.queue.slice(this.start_byte..)
-            }
-        }
-
         if self.done {
             return None;
         }
-        if self.start_byte == self.queue.len() {
-            self.done = true;
-            return Some(super::ByteQueue::new());
-        }
-        if self.max == 1 {
+        let start = self.start_byte;
+        let found = if self.max == 1 || self.needle.is_empty() {
+            None
+        } else {
+            self.queue.find_slice_after(self.needle, start)
+        };
+        let Some(end) = found else {
             self.done = true;
-            return Some(self.queue.slice(self.start_byte..));
+            return Some(self.queue.slice(start..));
+        };
+        self.start_byte = end + self.needle.len();
+        if self.max != 0 {
+            self.max -= 1;
         }
-        Some(inner(self))
+        Some(self.queue.slice(start..end))
     }
 
     #[inline]
-- 
2.43.0


From 212ca6a215014f094c6582ea89529d19a8a2c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 10/54] fix: search byte strings in queues correctly across
 chunks and from a position

---
 src/queue/byte_queue.rs | 129 +++++++++++++---------------------------
 1 file changed, 41 insertions(+), 88 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index dfd133c..5040d6a 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -254,102 +254,55 @@ impl<'a> ByteQueue<'a> {
         self.find_slice_after(data, 0)
     }
 
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    #[inline]
+    /// Check if the queue contains a certain byte sequence at or after `start` and return its starting position.
+    #[allow(clippy::missing_inline_in_public_items)]
     #[must_use]
     pub fn find_slice_after(&self, data: &[u8], start: usize) -> Option<usize> {
-        self.find_slice_pos(data, 0, start, start)
-            .map(|(av, _, _)| av)
-    }
-
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    #[inline]
-    fn find_slice_pos(
-        &self,
-        data: &[u8],
-        start_chunk: usize,
-        start_offset: usize,
-        start_byte: usize,
-    ) -> Option<(usize, usize, usize)> {
-        if data.is_empty() {
-            return Some((0, 0, 0));
-        }
-        self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
-    }
-
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    fn find_slice_pos_nonempty(
-        &self,
-        data: &[u8],
-        mut start_chunk: usize,
-        mut start_offset: usize,
-        mut start_byte: usize,
-    ) -> Option<(usize, usize, usize)> {
-        debug_assert!(!data.is_empty(), "data is empty");
-        // the first byte in the sequence to match possible sequences
-        let first_byte = data[0];
-
-        'outer: loop {
-            let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
-            if start_offset >= len {
-                start_offset -= len;
-                start_chunk += 1;
-                continue;
-            }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
-                };
-                start_offset += av;
-                start_byte += av;
-                break start_byte;
-            };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
-            for av in data {
-                let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
+        /// Checks if `data` continues into the following chunks.
+        fn matches<'a: 'b, 'b>(
+            first: &'b [u8],
+            rest: impl Iterator<Item = &'b ByteData<'a>>,
+            mut data: &[u8],
+        ) -> bool {
+            let mut chunks = core::iter::once(first).chain(rest.map(ByteData::as_slice));
+            while !data.is_empty() {
+                let Some(chunk) = chunks.next() else {
+                    return false;
                 };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
+                let len = chunk.len().min(data.len());
+                if chunk[..len] != data[..len] {
+                    return false;
                 }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
+                data = &data[len..];
+            }
+            true
+        }
+
+        if start > self.len() {
+            return None;
+        }
+        let Some(first_byte) = data.first() else {
+            return Some(start);
+        };
+        // the position of the first byte in the current chunk
+        let mut chunk_start = 0;
+        for (index, chunk) in self.chunks().enumerate() {
+            let chunk = chunk.as_slice();
+            let mut offset = start.saturating_sub(chunk_start);
+            while offset < chunk.len() {
+                if self.len() - chunk_start - offset < data.len() {
+                    return None;
                 }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
+                if chunk[offset] == *first_byte
+                    && matches(&chunk[offset..], self.chunks().skip(index + 1), data)
+                {
+                    return Some(chunk_start + offset);
                 }
-                continue 'outer;
+                offset += 1;
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            chunk_start += chunk.len();
         }
+        None
     }
 
     /// Split the queue on a certain byte sequence.
-- 
2.43.0


From dc3010a4e827df112782e1f6b17198710a42e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 11/54] fix: split byte and string values at every separator
 and terminate

---
 src/bytedata.rs   | 47 +++++++++++++++++++++++++----------------------
 src/stringdata.rs |  2 +-
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 62258c1..f3dc375 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -846,49 +846,52 @@ impl<'a> ByteData<'a> {
         Ok(self.split_at(aa))
     }
 
-    /// Split the `ByteData` at the first occurrence of the given byte sequence.
+    /// Split the `ByteData` at every occurrence of the given byte sequence.
     #[inline]
     pub fn split_on<'b>(self, needle: &'b [u8]) -> impl Iterator<Item = ByteData<'a>> + Send + 'b
     where
         'a: 'b,
     {
-        struct It<'a, 'b>(ByteData<'a>, &'b [u8], bool);
+        struct It<'a, 'b> {
+            data: ByteData<'a>,
+            needle: &'b [u8],
+            done: bool,
+        }
         impl<'a> Iterator for It<'a, '_> {
             type Item = ByteData<'a>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                if self.0.is_empty() {
+                if self.done {
                     return None;
                 }
-                let aa = if let Some((aa, _)) =
-                    crate::const_split_once_bytes(self.0.as_slice(), self.1)
-                {
-                    aa.len()
+                let found = if self.needle.is_empty() {
+                    None
                 } else {
-                    return Some(core::mem::replace(&mut self.0, ByteData::empty()));
+                    crate::const_find_bytes(self.data.as_slice(), self.needle)
                 };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
-                }
-                self.2 = false;
-                let aa = self.0.take_bytes(aa);
-                Some(aa)
+                let Some(position) = found else {
+                    self.done = true;
+                    return Some(core::mem::replace(&mut self.data, ByteData::empty()));
+                };
+                let part = self.data.take_bytes(position);
+                self.data.make_sliced(self.needle.len()..);
+                Some(part)
             }
 
             fn size_hint(&self) -> (usize, Option<usize>) {
-                if self.0.is_empty() {
+                if self.done {
                     (0, Some(0))
-                } else if self.0.len() < self.1.len() {
-                    (1, Some(1))
-                } else if self.0.len() < self.1.len() * 2 {
-                    (1, Some(2))
                 } else {
-                    (1, None)
+                    let max = self.data.len().checked_div(self.needle.len());
+                    (1, Some(max.unwrap_or(0) + 1))
                 }
             }
         }
-        It(self, needle, true)
+        It {
+            done: self.is_empty(),
+            data: self,
+            needle,
+        }
     }
 }
 
diff --git a/src/stringdata.rs b/src/stringdata.rs
index c270eba..92cb33b 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -378,7 +378,7 @@ impl<'a> StringData<'a> {
         Ok(self.split_at(aa))
     }
 
-    /// Split the `StringData` at the first occurrence of the given str sequence.
+    /// Split the `StringData` at every occurrence of the given str sequence.
     #[inline]
     pub fn split_on<'b>(self, needle: &'b str) -> impl Iterator<Item = Self> + Send + 'b
     where
-- 
2.43.0


From e28380ab05ef0aa5ebb16b14afe69f31cdea2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 12/54] fix: reject empty string queue slices inside a
 character

---
 src/queue/string_queue.rs | 43 +++------------------------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 4fce109..0cccb77 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -159,47 +159,10 @@ impl<'a> StringQueue<'a> {
     #[inline]
     #[must_use]
     pub fn slice<R: core::ops::RangeBounds<usize>>(&self, range: R) -> Self {
-        fn inner(slic: ByteQueue<'_>) -> StringQueue<'_> {
-            #[allow(clippy::expect_used)]
-            let front = slic.front().expect("not empty");
-            assert!(
-                front[0] & 0b1100_0000 != 0b1000_0000,
-                "StringQueue: Invalid UTF-8 start in range"
-            );
-            #[allow(clippy::expect_used)]
-            let by = slic.back().expect("not empty");
-            let end_byte = by[by.len() - 1];
-            assert!(
-                end_byte & 0b1100_0000 != 0b1100_0000,
-                "StringQueue: Invalid UTF-8 end in range"
-            );
-            if end_byte & 0b1100_0000 == 0b1000_0000 {
-                // compute backwards to find the start of the char to see if the number of bytes is correct
-                let mut i = by.len() - 2;
-                while by[i] & 0b1100_0000 == 0b1000_0000 {
-                    i -= 1;
-                }
-                let char_len = by.len() - i;
-                assert!(
-                    !(char_len == 2 && by[i] & 0b1110_0000 != 0b1100_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-                assert!(
-                    !(char_len == 3 && by[i] & 0b1111_0000 != 0b1110_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-                assert!(
-                    !(char_len == 4 && by[i] & 0b1111_1000 != 0b1111_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-            }
-            StringQueue { queue: slic }
-        }
-        let slic = self.queue.slice(range);
-        if slic.is_empty() {
-            return Self::new();
+        let (start, end) = self.check_range(range);
+        Self {
+            queue: self.queue.slice(start..end),
         }
-        inner(slic)
     }
 
     /// Iterates over each character in the queue.
-- 
2.43.0


From 67e4ae0c3606e84cfb387b3705e434866c1f67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 13/54] fix: count bytes written through a borrowed buffer in
 the builder

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..645502d 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -627,7 +627,7 @@ impl SharedBytesBuilder {
         let ret = fun(&mut bb);
         #[allow(clippy::cast_possible_truncation)]
         let len = bb.len() as u32;
-        self.len += len;
+        self.off += len;
         ret
     }
 }
-- 
2.43.0


From 9818dd424f45c8e2faecbd3c31742e7600a405b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 14/54] fix: reserve in the builder must not silently reserve
 less than asked

---
 src/shared_bytes_builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 645502d..5cdf4bb 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -154,13 +154,21 @@ impl SharedBytesBuilder {
     }
 
     /// Reserves capacity for at least `additional` more bytes to be written to the buffer.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the required capacity is too large.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
         let off = self.off as usize;
-        if off == 0xFFFF_FFFF || additional == 0 {
+        if additional == 0 {
             return;
         }
-        let new_off = off.saturating_add(additional);
+        #[allow(clippy::panic)]
+        let new_off = match off.checked_add(additional) {
+            Some(new_off) if new_off <= 0xFFFF_FFFF => new_off,
+            _ => panic!("SharedBytesBuilder::reserve: capacity too large"),
+        };
         let new_len = if new_off >= 0x0000_8000 {
             (new_off & 0xFFFF_8000)
                 .saturating_add(0x0000_8000)
-- 
2.43.0


From 77902f608b152024cceaf0f4b0aca3aa729f85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 15/54] fix: truncating a builder to more than its length must
 do nothing

---
 src/shared_bytes_builder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 5cdf4bb..a4fb1b7 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -290,14 +290,12 @@ impl SharedBytesBuilder {
     /// Truncates the buffer. This method does nothing if the buffer contains less than `len` bytes.
     #[inline]
     pub fn truncate(&mut self, len: usize) {
-        if self.len == 0 {
+        if len >= self.len() {
             return;
         }
         #[allow(clippy::cast_possible_truncation)]
-        let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
-        if self.off > data_off {
-            self.off = data_off;
-        }
+        let len = len as u32;
+        self.off = SharedBytesMeta::compute_start_offset(self.align) + len;
     }
 
     /// Freezes the builder and returns a [`SharedBytes`] representing the data.
-- 
2.43.0


From 17d28e3405becac59d3bf9382c4dbc3c1c414a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 16/54] fix: honour the alignment of a builder created with a
 capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index a4fb1b7..9fd9c36 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,12 +107,12 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
             "SharedBytesBuilder::with_aligned_capacity: alignment must be a power of two"
         );
+        let align = Self::cap_check(cap, alignment);
         #[allow(clippy::cast_possible_truncation)]
         let cap = cap as u32;
         Self::with_capacity_u32(cap, align)
-- 
2.43.0


From b89b189a61551d3d4ae521eef5e5cc8977a9542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 17/54] fix: release shared buffers without going through a one
 byte reference

---
 src/shared_bytes.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 5eeaea8..db2c367 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -385,9 +385,9 @@ impl Clone for SharedBytes {
             return Self::EMPTY;
         }
         #[allow(clippy::cast_ptr_alignment)]
-        let dat = dat.cast::<SharedBytesMeta>().cast_mut();
+        let dat = dat.cast::<SharedBytesMeta>();
         // SAFETY: `dat` is a valid pointer.
-        unsafe { &mut *dat }
+        unsafe { &*dat }
             .refcnt
             .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
         Self {
@@ -401,8 +401,7 @@ impl Clone for SharedBytes {
 impl Drop for SharedBytes {
     #[inline]
     fn drop(&mut self) {
-        fn drop_dat(dat: &u8) {
-            let dat = dat as *const u8;
+        fn drop_dat(dat: *const u8) {
             #[allow(clippy::cast_ptr_alignment)]
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
@@ -419,10 +418,9 @@ impl Drop for SharedBytes {
             }
         }
         let dat = self.dat();
-        // SAFETY: `dat` is a valid pointer.
-        let Some(dat) = (unsafe { dat.as_ref() }) else {
+        if dat.is_null() {
             return;
-        };
+        }
         drop_dat(dat);
         self.dat_addr = 0;
     }
-- 
2.43.0


From 8a7c772aff55a9757a733ef5cbb301d79e0eb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 18/54] fix: order accesses to shared storage before its
 release and reuse

---
 src/bytes_1/shared_bytes.rs | 4 ++--
 src/external.rs             | 4 ++--
 src/shared_bytes.rs         | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index c832ea6..8ea1160 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -46,7 +46,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     is_unique: |data| unsafe {
         let p = data.load(Ordering::Relaxed);
         let meta = &*(p as *const crate::SharedBytesMeta);
-        meta.refcnt.load(Ordering::Relaxed) == 1
+        meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe { release(data) },
 };
@@ -56,7 +56,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
 unsafe fn release(data: &AtomicPtr<()>) {
     let p = data.load(Ordering::Relaxed) as *mut u8;
     let meta = unsafe { &*(p as *const crate::SharedBytesMeta) };
-    if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+    if meta.refcnt.fetch_sub(1, Ordering::AcqRel) != 1 {
         return;
     }
     let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
diff --git a/src/external.rs b/src/external.rs
index f52a30e..12573e1 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -339,7 +339,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -378,7 +378,7 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::AcqRel);
         if ref_count == 1 {
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index db2c367..2193aa2 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -195,7 +195,7 @@ impl SharedBytes {
         let meta = dat.cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
         let meta = unsafe { &*meta };
-        meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1
+        meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1
     }
 
     /// Returns the bytes as a slice.
@@ -406,7 +406,7 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::AcqRel) == 1 {
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -511,7 +511,7 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From e8d21e48b9857fe35b3dfa1178e12ff316343c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 19/54] fix: do not assume an uninitialised buffer to be
 initialised when pushing a char

---
 src/shared_str_builder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/shared_str_builder.rs b/src/shared_str_builder.rs
index f17f55b..6f0f1ef 100644
--- a/src/shared_str_builder.rs
+++ b/src/shared_str_builder.rs
@@ -30,9 +30,7 @@ impl SharedStrBuilder {
     /// Appends the given byte to the shared string.
     #[inline]
     pub fn push(&mut self, ch: char) {
-        #[allow(clippy::uninit_assumed_init, invalid_value)]
-        // Safety: `buf` is a 4-byte buffer, which is enough to encode any Unicode scalar value.
-        let mut buf: [u8; 4] = unsafe { core::mem::MaybeUninit::uninit().assume_init() };
+        let mut buf = [0_u8; 4];
         let buf = ch.encode_utf8(&mut buf);
         self.inner.extend_from_slice(buf.as_bytes());
     }
-- 
2.43.0


From a9a6d135d79080e46aec36d7e0fae3da9b3883f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 20/54] fix: move inline chunk bytes without aliasing pointers

---
 src/byte_chunk.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index 805b589..80e3be5 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -112,12 +112,7 @@ impl ByteChunk {
         if len == 0 || start == 0 {
             return;
         }
-        let len = len as usize;
-        // SAFETY: `start` and `end` are within bounds.
-        let sorc = unsafe { self.data.as_ptr().add(start) };
-        let dest = self.data.as_mut_ptr();
-        // SAFETY: `sorc` and `dest` are valid pointers. They may however overlap for `len` bytes.
-        unsafe { core::ptr::copy(sorc, dest, len) };
+        self.data.copy_within(start..end, 0);
     }
 
     /// Return as subslice of the `ByteChunk`.
-- 
2.43.0


From e6e0db48c01686321e09e1b01bc3fd8d1fdaf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 21/54] fix: fill a BytesMut made from shared bytes through its
 own API

---
 src/bytes_1/shared_bytes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 8ea1160..6b447e2 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -36,8 +36,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     to_mut: |data, ptr, len| {
         let mut vec = bytes::BytesMut::with_capacity(len);
         unsafe {
-            core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
-            vec.set_len(len);
+            vec.extend_from_slice(core::slice::from_raw_parts(ptr, len));
             // the `Bytes` was consumed, so its reference has to be released
             release(data);
         }
-- 
2.43.0


From f2cbef7d976289edc0a509ce624ba3689283f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 22/54] fix: do not hold on to a shared borrow while a drain
 removes its range

---
 src/queue/drain.rs | 80 +++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/src/queue/drain.rs b/src/queue/drain.rs
index 5bd2b60..6e71444 100644
--- a/src/queue/drain.rs
+++ b/src/queue/drain.rs
@@ -1,8 +1,11 @@
+use core::mem::MaybeUninit;
+
 /// A draining iterator over the elements of a `ByteQueue`.
 #[allow(missing_debug_implementations)]
 pub struct DrainBytes<'a, 'b> {
     ptr: *mut super::ByteQueue<'a>,
-    queue: Option<super::ByteIter<'a, 'b>>,
+    /// Always initialized, wrapped so that its borrow of the queue does not have to outlive the removal when `self` is dropped.
+    iter: MaybeUninit<super::ByteIter<'a, 'b>>,
     start: usize,
     end: usize,
 }
@@ -10,14 +13,24 @@ pub struct DrainBytes<'a, 'b> {
 impl<'a, 'b> DrainBytes<'a, 'b> {
     pub(super) fn new(queue: &'b mut super::ByteQueue<'a>, start: usize, end: usize) -> Self {
         let ptr = queue as *mut super::ByteQueue<'a>;
-        let queue = Some(queue.bytes().skip(start).take(end - start));
+        let iter = MaybeUninit::new(queue.bytes().skip(start).take(end - start));
         Self {
             ptr,
-            queue,
+            iter,
             start,
             end,
         }
     }
+
+    const fn iter_ref(&self) -> &super::ByteIter<'a, 'b> {
+        // SAFETY: `iter` is always initialized.
+        unsafe { self.iter.assume_init_ref() }
+    }
+
+    fn iter_mut(&mut self) -> &mut super::ByteIter<'a, 'b> {
+        // SAFETY: `iter` is always initialized.
+        unsafe { self.iter.assume_init_mut() }
+    }
 }
 
 #[allow(single_use_lifetimes, clippy::needless_lifetimes)]
@@ -34,7 +47,6 @@ impl<'a, 'b> Drop for DrainBytes<'a, 'b> {
         if self.start == self.end {
             return;
         }
-        _ = self.queue.take();
         // SAFETY: `ptr` is a valid pointer to a `ByteQueue`.
         let queue = unsafe { &mut *self.ptr };
         do_drain(queue, self.start, self.end);
@@ -47,29 +59,29 @@ impl<'a, 'b> Iterator for DrainBytes<'a, 'b> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        self.queue.as_mut().and_then(super::ByteIter::next)
+        self.iter_mut().next()
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.queue
-            .as_ref()
-            .map_or((0, Some(0)), super::ByteIter::size_hint)
+        self.iter_ref().size_hint()
     }
 
     #[inline]
-    fn count(mut self) -> usize {
-        self.queue.take().map_or(0, super::ByteIter::count)
+    fn count(self) -> usize {
+        // SAFETY: `iter` is always initialized, and not used again.
+        unsafe { self.iter.assume_init_read() }.count()
     }
 
     #[inline]
-    fn last(mut self) -> Option<Self::Item> {
-        self.queue.take().and_then(super::ByteIter::last)
+    fn last(self) -> Option<Self::Item> {
+        // SAFETY: `iter` is always initialized, and not used again.
+        unsafe { self.iter.assume_init_read() }.last()
     }
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.queue.as_mut().and_then(|qu| qu.nth(n))
+        self.iter_mut().nth(n)
     }
 }
 
@@ -77,7 +89,7 @@ impl<'a, 'b> Iterator for DrainBytes<'a, 'b> {
 impl<'a, 'b> ExactSizeIterator for DrainBytes<'a, 'b> {
     #[inline]
     fn len(&self) -> usize {
-        self.queue.as_ref().map_or(0, super::ByteIter::len)
+        self.iter_ref().len()
     }
 }
 
@@ -85,7 +97,8 @@ impl<'a, 'b> ExactSizeIterator for DrainBytes<'a, 'b> {
 #[allow(missing_debug_implementations)]
 pub struct DrainChars<'a, 'b> {
     ptr: *mut super::StringQueue<'a>,
-    queue: Option<super::CharIter<'a, 'b>>,
+    /// Always initialized, wrapped so that its borrow of the queue does not have to outlive the removal when `self` is dropped.
+    iter: MaybeUninit<super::CharIter<'a, 'b>>,
     start: usize,
     end: usize,
 }
@@ -97,16 +110,26 @@ impl<'a, 'b> DrainChars<'a, 'b> {
         end: usize,
     ) -> Self {
         let ptr = queue as *mut super::StringQueue<'a>;
-        let queue = queue.bytes().skip(start).take(end - start);
-        let queue = super::CharIter::from_byte_iter(queue);
-        let queue = Some(queue);
+        let iter = queue.bytes().skip(start).take(end - start);
+        let iter = super::CharIter::from_byte_iter(iter);
+        let iter = MaybeUninit::new(iter);
         Self {
             ptr,
-            queue,
+            iter,
             start,
             end,
         }
     }
+
+    const fn iter_ref(&self) -> &super::CharIter<'a, 'b> {
+        // SAFETY: `iter` is always initialized.
+        unsafe { self.iter.assume_init_ref() }
+    }
+
+    fn iter_mut(&mut self) -> &mut super::CharIter<'a, 'b> {
+        // SAFETY: `iter` is always initialized.
+        unsafe { self.iter.assume_init_mut() }
+    }
 }
 
 #[allow(single_use_lifetimes, clippy::needless_lifetimes)]
@@ -123,7 +146,6 @@ impl<'a, 'b> Drop for DrainChars<'a, 'b> {
         if self.start == self.end {
             return;
         }
-        _ = self.queue.take();
         // SAFETY: `ptr` is a valid pointer to a `StringQueue`.
         let queue = unsafe { &mut *self.ptr };
         do_drain(queue.as_bytequeue_mut(), self.start, self.end);
@@ -136,29 +158,29 @@ impl<'a, 'b> Iterator for DrainChars<'a, 'b> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        self.queue.as_mut().and_then(super::CharIter::next)
+        self.iter_mut().next()
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.queue
-            .as_ref()
-            .map_or((0, Some(0)), super::CharIter::size_hint)
+        self.iter_ref().size_hint()
     }
 
     #[inline]
-    fn count(mut self) -> usize {
-        self.queue.take().map_or(0, super::CharIter::count)
+    fn count(self) -> usize {
+        // SAFETY: `iter` is always initialized, and not used again.
+        unsafe { self.iter.assume_init_read() }.count()
     }
 
     #[inline]
-    fn last(mut self) -> Option<Self::Item> {
-        self.queue.take().and_then(super::CharIter::last)
+    fn last(self) -> Option<Self::Item> {
+        // SAFETY: `iter` is always initialized, and not used again.
+        unsafe { self.iter.assume_init_read() }.last()
     }
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.queue.as_mut().and_then(|qu| qu.nth(n))
+        self.iter_mut().nth(n)
     }
 }
 
-- 
2.43.0


From 9ae3a04ab723de0d592d451fd6c6ba29c7fd3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 23/54] fix: link queue blocks through their owning pointers

---
 src/queue/linked_root.rs | 75 ++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 892cb48..3adbc82 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -138,11 +138,13 @@ impl<'a> LinkedRoot<'a> {
         let node = alloc::boxed::Box::new(super::linked_node_leaf::LinkedNodeLeaf::with_item(data));
         let node = alloc::boxed::Box::into_raw(node);
         self.count += 1;
-        // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-        if let Some(last) = unsafe { self.last.as_mut() } {
-            last.next = node;
-            // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
-            unsafe { &mut *node }.prev = last;
+        let last = self.last;
+        if !last.is_null() {
+            // SAFETY: both pointers are valid and non-null pointers to a boxed `LinkedNodeLeaf`.
+            unsafe {
+                (*last).next = node;
+                (*node).prev = last;
+            };
             self.last = node;
             return;
         }
@@ -154,11 +156,13 @@ impl<'a> LinkedRoot<'a> {
         let node = alloc::boxed::Box::new(super::linked_node_leaf::LinkedNodeLeaf::with_item(data));
         let node = alloc::boxed::Box::into_raw(node);
         self.count += 1;
-        // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-        if let Some(first) = unsafe { self.first.as_mut() } {
-            first.prev = node;
-            // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
-            unsafe { &mut *node }.next = first;
+        let first = self.first;
+        if !first.is_null() {
+            // SAFETY: both pointers are valid and non-null pointers to a boxed `LinkedNodeLeaf`.
+            unsafe {
+                (*first).prev = node;
+                (*node).next = first;
+            };
             self.first = node;
             return;
         }
@@ -171,19 +175,21 @@ impl<'a> LinkedRoot<'a> {
             self.count = 0;
             return Some(core::mem::replace(&mut self.chamber, ByteData::empty()));
         }
+        let node = self.last;
         // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-        let last = unsafe { self.last.as_mut()? };
+        let last = unsafe { node.as_mut()? };
         let ret = last.data.pop_back()?;
         self.count -= 1;
 
         // dealloc the node if it is empty and there exists a previous node
         if last.data.len == 0 {
-            // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-            if let Some(prev) = unsafe { last.prev.as_mut() } {
-                prev.next = core::ptr::null_mut();
+            let prev = last.prev;
+            if !prev.is_null() {
+                // SAFETY: the pointer is non-null so it points to a valid `LinkedNodeLeaf`.
+                unsafe { (*prev).next = core::ptr::null_mut() };
                 self.last = prev;
                 // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
-                core::mem::drop(unsafe { alloc::boxed::Box::from_raw(last) });
+                core::mem::drop(unsafe { alloc::boxed::Box::from_raw(node) });
             }
         }
         Some(ret)
@@ -197,19 +203,21 @@ impl<'a> LinkedRoot<'a> {
             self.count -= 1;
             return Some(core::mem::replace(&mut self.chamber, ByteData::empty()));
         }
+        let node = self.first;
         // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-        let first = unsafe { self.first.as_mut()? };
+        let first = unsafe { node.as_mut()? };
         let ret = first.data.pop_front()?;
         self.count -= 1;
 
         // dealloc the node if it is empty and there exists a next node
         if first.data.len == 0 {
-            // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-            if let Some(next) = unsafe { first.next.as_mut() } {
-                next.prev = core::ptr::null_mut();
+            let next = first.next;
+            if !next.is_null() {
+                // SAFETY: the pointer is non-null so it points to a valid `LinkedNodeLeaf`.
+                unsafe { (*next).prev = core::ptr::null_mut() };
                 self.first = next;
                 // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
-                core::mem::drop(unsafe { alloc::boxed::Box::from_raw(first) });
+                core::mem::drop(unsafe { alloc::boxed::Box::from_raw(node) });
             }
         }
 
@@ -284,19 +292,19 @@ impl<'a> LinkedRoot<'a> {
             }
         }
 
-        // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-        if let Some(last) = unsafe { self.last.as_mut() } {
-            // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
-            if let Some(first) = unsafe { other.first.as_mut() } {
-                last.next = first;
-                first.prev = last;
-                self.last = other.last;
-            } else {
-                unreachable!("invalid state at append");
-            }
-        } else {
+        let (last, first) = (self.last, other.first);
+        if last.is_null() {
             self.first = other.first;
             self.last = other.last;
+        } else if first.is_null() {
+            unreachable!("invalid state at append");
+        } else {
+            // SAFETY: both pointers are non-null so they point to a valid `LinkedNodeLeaf`.
+            unsafe {
+                (*last).next = first;
+                (*first).prev = last;
+            };
+            self.last = other.last;
         }
         self.count += other.count;
         other.first = core::ptr::null_mut();
@@ -407,10 +415,9 @@ impl Drop for LinkedRoot<'_> {
     #[cfg(feature = "alloc")]
     fn drop(&mut self) {
         let mut node = self.first;
-        // SAFETY: if the pointer is non-null, it is a valid pointer to a `LinkedNodeLeaf`.
-        while let Some(n) = unsafe { node.as_mut() } {
+        while !node.is_null() {
             // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
-            let n = unsafe { alloc::boxed::Box::from_raw(n) };
+            let n = unsafe { alloc::boxed::Box::from_raw(node) };
             node = n.next;
             core::mem::drop(n);
         }
-- 
2.43.0


From 2a093362a901087f61ff031b3d529c538be3f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 24/54] fix: do not keep a reference to the bytes of a vector
 while it is taken out

---
 src/external.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 12573e1..0378132 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -92,7 +92,8 @@ impl ExtBytesRef {
 
 pub(crate) struct TakeExtBytesInner<'a, T> {
     data: &'a mut T,
-    slice: &'a [u8],
+    // a raw pointer, as a reference would have to stay valid while `data` is changed.
+    slice: *const [u8],
 }
 impl<'a, T> TakeExtBytesInner<'a, T> {
     #[inline]
@@ -100,7 +101,8 @@ impl<'a, T> TakeExtBytesInner<'a, T> {
     where
         'a: 'b,
     {
-        fun(self.data, self.slice)
+        // SAFETY: the slice is inside of `data`, which has not been changed as it is still borrowed here.
+        fun(self.data, unsafe { &*self.slice })
     }
     #[inline]
     pub(crate) fn into_inner(self) -> &'a mut T {
@@ -352,8 +354,7 @@ impl ExtBytes {
         let t_val = unsafe { dd.data.cast::<u8>().add(offset) };
         // SAFETY: `t_val` should now be cast to `*const T`.
         let t_val = unsafe { &mut *t_val.cast::<T>().cast_mut() };
-        // SAFETY: `dd.ptr` is a valid pointer to the slice start.
-        let slic = unsafe { core::slice::from_raw_parts(dd.ptr, dd.len) };
+        let slic = core::ptr::slice_from_raw_parts(dd.ptr, dd.len);
         let dat = fun(TakeExtBytesInner {
             data: t_val,
             slice: slic,
-- 
2.43.0


From e26773268dfcf049d3ed4be0b1c6c2b0d92a844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 25/54] fix: slicing a str at its end with const_slice_str must
 not panic

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1434d2a..9377664 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -407,7 +407,7 @@ pub const fn const_slice_str(data: &'_ str, range: core::ops::Range<usize>) -> S
     if start > end || end > data.len() {
         return StrSliceResult::OutOfBounds;
     }
-    if start != 0 && data[start] & 0b1100_0000 == 0b1000_0000 {
+    if start != 0 && start != data.len() && data[start] & 0b1100_0000 == 0b1000_0000 {
         return StrSliceResult::InvalidUtf8;
     }
     if end != data.len() && data[end] & 0b1100_0000 == 0b1000_0000 {
-- 
2.43.0


From 6b8806761ef9ab3763d298afc556e248042a511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 26/54] fix: decode multi-byte chars in const_utf8_char_next
 and reject invalid encodings

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9377664..d62479a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -561,7 +561,7 @@ pub const fn const_split_once_str<'a>(
 #[inline]
 #[must_use]
 pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
-    let Some((first, data)) = data.split_first() else {
+    let Some((first, _)) = data.split_first() else {
         return (0, 0);
     };
     let first = *first;
@@ -592,6 +592,15 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
         value = (value << 6_u8) | (byte & 0b0011_1111) as u32;
         i += 1;
     }
+    // the shortest encoding must have been used, and it must be a code point that can be encoded
+    let overlong = match len {
+        2 => value < 0x80,
+        3 => value < 0x800,
+        _ => value < 0x1_0000,
+    };
+    if overlong || core::char::from_u32(value).is_none() {
+        return (0, 0);
+    }
     #[allow(clippy::cast_possible_truncation)]
     (value, len as u32)
 }
-- 
2.43.0


From 7ba3d9e5ab81327e2fb91db74b002d2432601e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:37 +0000
Subject: [PATCH 27/54] fix: report overlong encodings as errors in
 Utf8CharIndices

---
 src/char_indicies.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/char_indicies.rs b/src/char_indicies.rs
index 865180b..ce2a841 100644
--- a/src/char_indicies.rs
+++ b/src/char_indicies.rs
@@ -81,6 +81,16 @@ impl<'a> Utf8CharIndices<'a> {
                 i += 1;
             }
 
+            // the shortest encoding must have been used
+            let overlong = match width {
+                2 => char < 0x80,
+                3 => char < 0x800,
+                _ => char < 0x1_0000,
+            };
+            if overlong {
+                return Err(width);
+            }
+
             if let Some(char) = core::char::from_u32(char) {
                 Ok((char, width))
             } else {
-- 
2.43.0


From b11971cccf5c834afea2de631ef08f50049c3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 28/54] fix: hash equal queues equally however their bytes are
 split into chunks

---
 src/queue/byte_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 5040d6a..5811b4e 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -821,8 +821,12 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        // equal queues must hash equally, so the hash can not depend on how the bytes are split into chunks
+        state.write_usize(self.len());
         for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+            for byte in chunk.as_slice() {
+                state.write_u8(*byte);
+            }
         }
     }
 }
-- 
2.43.0


From 1378a5cdb05e71236f3bdc3b83601c8c10c288e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 29/54] fix: reading into a buffer larger than the remaining
 data must not panic

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..a4ce064 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From da3888fadeb567c79ddeb8440c7a670e57382fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 30/54] fix: vectored reads must not read past the end of the
 data

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index a4ce064..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From da962fe8fec34d204d88a8877ce0fb78c442c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 31/54] fix: do not count a chunk that did not fit into the
 queue

---
 src/queue/byte_queue.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 5811b4e..14e3959 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -60,8 +60,10 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
+        // might panic if there is no space left, so the bytes are counted afterwards
         self.queue.push_back(data);
+        self.remain += len;
     }
 
     /// Prepend bytes into the queue.
@@ -71,8 +73,10 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
+        // might panic if there is no space left, so the bytes are counted afterwards
         self.queue.push_front(data);
+        self.remain += len;
     }
 
     /// Remove bytes from the front of the queue.
-- 
2.43.0


From 1a84be043e70d7d081d264d0fe119a85c621de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 32/54] fix: an empty item is no chunk of a queue without alloc

---
 src/queue/linked_root.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 3adbc82..ca46641 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -36,9 +36,13 @@ impl<'a> LinkedRoot<'a> {
 
     #[inline]
     pub(super) const fn with_item(item: ByteData<'a>) -> Self {
-        Self {
-            data: super::linked_node_data::LinkedNodeData::with_item(item),
+        let empty = item.is_empty();
+        let mut data = super::linked_node_data::LinkedNodeData::with_item(item);
+        if empty {
+            // an empty item is not a chunk
+            data.len = 0;
         }
+        Self { data }
     }
 
     #[inline]
-- 
2.43.0


From 8e2e0072dedef656d0896b929d3da7404a3f689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 33/54] fix: never let the reference count of a shared buffer
 wrap around

---
 src/bytes_1/shared_bytes.rs |  2 +-
 src/shared_bytes.rs         | 30 ++++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 6b447e2..179cd51 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -14,7 +14,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     clone: |data, ptr, len| {
         let p = data.load(Ordering::Relaxed);
         let meta = unsafe { &*(p as *const crate::SharedBytesMeta) };
-        meta.refcnt.fetch_add(1, Ordering::Relaxed);
+        meta.retain();
         super::SBytes {
             ptr,
             len,
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 2193aa2..0974ab4 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -51,6 +51,28 @@ impl SharedBytesMeta {
         4_usize << self.info
     }
 
+    /// Add a reference to the buffer.
+    ///
+    /// # Panics
+    ///
+    /// Panics if there are too many references, as the count must never wrap around.
+    #[inline]
+    pub(crate) fn retain(&self) {
+        const MAX: u32 = u32::MAX >> 1;
+        if self
+            .refcnt
+            .fetch_add(1, core::sync::atomic::Ordering::Relaxed)
+            > MAX
+        {
+            self.refcnt
+                .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            #[allow(clippy::panic)]
+            {
+                panic!("SharedBytes: too many references to the same buffer");
+            };
+        }
+    }
+
     pub(crate) const fn compute_start_offset(align: usize) -> u32 {
         #[allow(
             clippy::cast_possible_truncation,
@@ -268,9 +290,7 @@ impl SharedBytes {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = self.dat().cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
-        unsafe { &*meta }
-            .refcnt
-            .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
+        unsafe { &*meta }.retain();
         Self {
             len,
             off,
@@ -387,9 +407,7 @@ impl Clone for SharedBytes {
         #[allow(clippy::cast_ptr_alignment)]
         let dat = dat.cast::<SharedBytesMeta>();
         // SAFETY: `dat` is a valid pointer.
-        unsafe { &*dat }
-            .refcnt
-            .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
+        unsafe { &*dat }.retain();
         Self {
             len: self.len,
             off: self.off,
-- 
2.43.0


From b382b202ddaa7e69dcfa428239e3c9d0de4c823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 34/54] fix: require external values to be Send as they are
 dropped by whichever thread is last

---
 src/external.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.rs b/src/external.rs
index 0378132..ff3f446 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -38,7 +38,7 @@ impl IntoExternalBytes for alloc::string::String {
 }
 
 /// A trait for types that can be used as external byte data.
-pub trait ExternalBytes: core::any::Any + Sync + Sized + 'static {
+pub trait ExternalBytes: core::any::Any + Send + Sync + Sized + 'static {
     /// The operations that can be performed on this type.
     const OPS: ExternalOps<Self>;
 }
-- 
2.43.0


From f91c7207b6e50843dad5c0e20e1fc6b4aeabffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 35/54] fix: a panic while dropping an external value must not
 leave it reachable

---
 src/bytedata.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index f3dc375..10f251e 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -624,9 +624,8 @@ impl<'a> ByteData<'a> {
                 dat.make_sliced_range(range);
                 if dat.len() <= crate::byte_chunk::ByteChunk::LEN {
                     let ret = Self::from_chunk_slice(dat.as_slice());
-                    // SAFETY: safe drop because the data is valid on the line above.
-                    unsafe { core::ptr::drop_in_place(dat) };
-                    core::mem::forget(self);
+                    // dropping the external value might panic, so it must not be reachable any more.
+                    core::mem::drop(self);
                     ret
                 } else {
                     self
@@ -686,15 +685,9 @@ impl<'a> ByteData<'a> {
                 if dat.len() > crate::byte_chunk::ByteChunk::LEN {
                     return;
                 }
-                let ret = crate::ByteChunk::from_slice(dat.as_slice());
-                // SAFETY: safe drop because the data is valid on the lines above.
-                unsafe {
-                    core::ptr::drop_in_place(dat);
-                };
-                self.chunk = DataKind {
-                    kind: KIND_CHUNK_MASK,
-                    data: ret,
-                };
+                let ret = Self::from_chunk_slice(dat.as_slice());
+                // dropping the external value might panic, so it must not be reachable any more.
+                core::mem::drop(core::mem::replace(self, ret));
             }
         }
     }
-- 
2.43.0


From 9681b80382a4931723a5396e6c1baee11fd51abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 36/54] fix: report recoverable errors when a nom input can not
 be split

---
 src/nom_7/bytedata.rs    | 4 ++--
 src/nom_7/bytequeue.rs   | 4 ++--
 src/nom_7/stringdata.rs  | 4 ++--
 src/nom_7/stringqueue.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..709e31f 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,7 +253,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..17c4c92 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -310,7 +310,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..e9a81b0 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,7 +291,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..50b1609 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -302,7 +302,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From ac573f69da07eb18218e76bcc986ca6ea89591f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 37/54] fix: an empty nom input has no first item to match

---
 src/nom_7/bytedata.rs    | 3 +++
 src/nom_7/bytequeue.rs   | 3 +++
 src/nom_7/stringdata.rs  | 3 +++
 src/nom_7/stringqueue.rs | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 709e31f..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -258,6 +258,9 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index 17c4c92..c479a28 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -309,6 +309,9 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => {
+                Err(nom::Err::Error(E::from_error_kind(self.clone(), e)))
+            }
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index e9a81b0..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -296,6 +296,9 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 50b1609..2b7bce9 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -301,6 +301,9 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => {
+                Err(nom::Err::Error(E::from_error_kind(self.clone(), e)))
+            }
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
-- 
2.43.0


From 8034ce5d038ec070899243b5876ca5c350d03886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 38/54] fix: iterate the chars of nom inputs with their byte
 offsets

---
 src/nom_7/stringdata.rs  | 14 ++++++++++++--
 src/nom_7/stringqueue.rs | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..2949fd4 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,22 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter = core::iter::Scan<
+        Self,
+        usize,
+        fn(&mut usize, char) -> Option<(usize, char)>,
+    >;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        // the positions are byte offsets, just as for `&str`
+        let with_offset: fn(&mut usize, char) -> Option<(usize, char)> = |offset, ch| {
+            let at = *offset;
+            *offset += ch.len_utf8();
+            Some((at, ch))
+        };
+        Iterator::scan(self.clone(), 0, with_offset)
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 2b7bce9..d1e0f2c 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,22 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter = core::iter::Scan<
+        crate::queue::OwnedCharIter<'a>,
+        usize,
+        fn(&mut usize, char) -> Option<(usize, char)>,
+    >;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        // the positions are byte offsets, just as for `&str`
+        let with_offset: fn(&mut usize, char) -> Option<(usize, char)> = |offset, ch| {
+            let at = *offset;
+            *offset += ch.len_utf8();
+            Some((at, ch))
+        };
+        Iterator::scan(self.clone().into_chars(), 0, with_offset)
     }
 
     #[inline]
-- 
2.43.0


From e429adf431f4fa9715f8fb2652d0bec609c35168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 39/54] fix: find positions in and index string queues as nom
 inputs like strings

---
 src/nom_7/stringqueue.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index d1e0f2c..e416267 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -200,15 +200,24 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
+        let mut cnt = 0;
+        for (i, _) in self.chars_indecies() {
+            if cnt == count {
+                return Ok(i);
+            }
+            cnt += 1;
+        }
+        if cnt == count {
+            Ok(self.len())
         } else {
-            Err(nom::Needed::new(count - self.len()))
+            Err(nom::Needed::Unknown)
         }
     }
 }
-- 
2.43.0


From c0ebeb7a80bddb8b73bf6d1e7393a1ab9a650e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 40/54] fix: apply the width and precision to a whole string
 queue when displaying it

---
 src/queue/string_queue.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 0cccb77..04d6152 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -501,8 +501,30 @@ impl core::fmt::Display for crate::StringQueue<'_> {
     #[inline]
     #[allow(clippy::min_ident_chars)]
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for chunk in self.chunks() {
-            core::fmt::Display::fmt(chunk, f)?;
+        if f.width().is_none() && f.precision().is_none() {
+            for chunk in self.chunks() {
+                f.write_str(chunk.as_str())?;
+            }
+            return Ok(());
+        }
+        // the width and the precision concern the whole text, not each of its chunks
+        let max = f.precision().unwrap_or(usize::MAX);
+        let count = self.chars().take(max).count();
+        let pad = f.width().map_or(0, |width| width.saturating_sub(count));
+        let before = match f.align() {
+            Some(core::fmt::Alignment::Right) => pad,
+            Some(core::fmt::Alignment::Center) => pad >> 1_u8,
+            Some(core::fmt::Alignment::Left) | None => 0,
+        };
+        let fill = f.fill();
+        for _ in 0..before {
+            core::fmt::Write::write_char(f, fill)?;
+        }
+        for ch in self.chars().take(max) {
+            core::fmt::Write::write_char(f, ch)?;
+        }
+        for _ in before..pad {
+            core::fmt::Write::write_char(f, fill)?;
         }
         Ok(())
     }
-- 
2.43.0


From 0259f640bc319c310fbc9be650abbae1f0085d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:41 +0000
Subject: [PATCH 41/54] fix: deserialize byte data without alloc through an
 existing serde method

---
 src/serde_1/bytedata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0bad6f7..0a6f73f 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -87,7 +87,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(self)
+            deserializer.deserialize_bytes(self)
         }
     }
 }
@@ -193,7 +193,7 @@ impl<'de: 'a, 'a> serde::de::Deserialize<'de> for ByteData<'a> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(ByteDataVisitor)
+            deserializer.deserialize_bytes(ByteDataVisitor)
         }
     }
 }
-- 
2.43.0


From bea46e424cb7f4ec73b4f192228600ed5c206cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 42/54] fix: accept byte sequences when deserializing bytes

---
 src/serde_1/bytedata.rs     | 14 +++++++++++++-
 src/serde_1/mod.rs          | 14 ++++++++++++++
 src/serde_1/shared_bytes.rs |  7 ++++++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0a6f73f..6ec518d 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -92,7 +92,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
     }
 }
 
-impl serde::de::Visitor<'_> for StaticByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for StaticByteDataVisitor {
     type Value = ByteData<'static>;
 
     #[inline]
@@ -124,6 +124,12 @@ impl serde::de::Visitor<'_> for StaticByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::bytes_from_seq(seq).map(ByteData::from_owned)
+    }
 }
 
 struct ByteDataVisitor;
@@ -166,6 +172,12 @@ impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::bytes_from_seq(seq).map(ByteData::from_owned)
+    }
 }
 
 /// Deserialize a byte sequence to a borrowed `ByteData` using `serde`.
diff --git a/src/serde_1/mod.rs b/src/serde_1/mod.rs
index 983bdac..55051b3 100644
--- a/src/serde_1/mod.rs
+++ b/src/serde_1/mod.rs
@@ -6,6 +6,20 @@ mod stringdata;
 #[cfg(feature = "alloc")]
 mod shared_bytes;
 
+/// Collects the bytes of formats without a byte string type, which represent bytes as a sequence of integers.
+#[cfg(feature = "alloc")]
+fn bytes_from_seq<'de, A: serde::de::SeqAccess<'de>>(
+    mut seq: A,
+) -> Result<alloc::vec::Vec<u8>, A::Error> {
+    // do not trust the hint for more than a page
+    let capacity = seq.size_hint().unwrap_or(0).min(4096);
+    let mut data = alloc::vec::Vec::with_capacity(capacity);
+    while let Some(byte) = seq.next_element()? {
+        data.push(byte);
+    }
+    Ok(data)
+}
+
 struct OptVisit<V>(V);
 
 impl<
diff --git a/src/serde_1/shared_bytes.rs b/src/serde_1/shared_bytes.rs
index f5be801..985419d 100644
--- a/src/serde_1/shared_bytes.rs
+++ b/src/serde_1/shared_bytes.rs
@@ -13,7 +13,7 @@ impl serde::ser::Serialize for SharedBytes {
 
 struct ByteDataVisitor;
 
-impl serde::de::Visitor<'_> for ByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     type Value = SharedBytes;
 
     #[inline]
@@ -35,6 +35,11 @@ impl serde::de::Visitor<'_> for ByteDataVisitor {
     {
         Ok(v.into())
     }
+
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::bytes_from_seq(seq).map(Into::into)
+    }
 }
 
 #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
-- 
2.43.0


From f727e80eca5baf8c48fdbb4308e76c72f537a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 43/54] fix: copy an interner through the pointer its set was
 made with

---
 src/interning/static.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/interning/static.rs b/src/interning/static.rs
index a48dd5b..fdf49be 100644
--- a/src/interning/static.rs
+++ b/src/interning/static.rs
@@ -93,17 +93,16 @@ impl Default for StaticInterning {
 impl Clone for StaticInterning {
     #[inline]
     fn clone(&self) -> Self {
-        let ptr = self.map.load(core::sync::atomic::Ordering::Acquire);
-        // SAFETY: The pointer is expected to be valid or `null`.
-        let ptr = unsafe { ptr.as_ref() }.unwrap_or_else(|| self.init());
-        // SAFETY: The pointer is valid and points to an `Arc`.
+        let mut ptr = self.map.load(core::sync::atomic::Ordering::Acquire);
+        if ptr.is_null() {
+            self.init();
+            ptr = self.map.load(core::sync::atomic::Ordering::Acquire);
+        }
+        // SAFETY: The pointer is valid and was returned by `Arc::into_raw`.
         unsafe { Arc::increment_strong_count(ptr) };
         Self {
             max_len: self.max_len,
-            map: AtomicPtr::new(
-                ptr as *const dashmap::DashMap<ByteData<'static>, ()>
-                    as *mut dashmap::DashMap<ByteData<'static>, ()>,
-            ),
+            map: AtomicPtr::new(ptr),
         }
     }
 }
-- 
2.43.0


From 757f028cf6a5d87d1969014cb900e0c712abf83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 44/54] fix: stop generating text when the raw input is used up

---
 src/arbitrary_1/stringdata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arbitrary_1/stringdata.rs b/src/arbitrary_1/stringdata.rs
index 8e93ad4..74e5cec 100644
--- a/src/arbitrary_1/stringdata.rs
+++ b/src/arbitrary_1/stringdata.rs
@@ -107,7 +107,9 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             #[cfg(feature = "alloc")]
             &Choice::Shared => {
                 let mut buffer = crate::SharedBytesBuilder::new();
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                // an exhausted input keeps yielding zero, so the end has to be looked for
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     buffer.reserve(4);
                     buffer.apply_unfilled(|buf| {
                         // SAFETY: The bytes may be uninitialized, but we are about to fill them.
-- 
2.43.0


From 7f0920f290b457380749e0672a5ec790d9f1e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 45/54] fix: reject queue edits that do not fit without alloc
 before moving content

---
 src/queue/byte_queue.rs | 13 +++++++++++++
 src/queue/drain.rs      |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 14e3959..a5fc19c 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -356,9 +356,20 @@ impl<'a> ByteQueue<'a> {
     #[inline]
     #[cfg(not(feature = "alloc"))]
     pub fn append(&mut self, other: Self) {
+        self.check_room(self.len(), self.len(), other.chunk_len());
         self.extend(other.into_iter());
     }
 
+    /// Check, before anything is moved, that there is room for all chunks once a range has been replaced by `added` chunks.
+    #[cfg(not(feature = "alloc"))]
+    pub(super) fn check_room(&self, start: usize, end: usize, added: usize) {
+        let kept = self.slice(..start).chunk_len() + self.slice(end..).chunk_len();
+        assert!(
+            kept + added <= self.queue.data.data.len(),
+            "ByteQueue: out of space, use `alloc` feature to enable dynamic allocation"
+        );
+    }
+
     /// Adds another `ByteQueue`'s chunks to this queue.
     #[inline]
     #[cfg(feature = "alloc")]
@@ -448,6 +459,8 @@ impl<'a> ByteQueue<'a> {
         end: usize,
         replace_with: ByteData<'a>,
     ) {
+        #[cfg(not(feature = "alloc"))]
+        self.check_room(start, end, usize::from(!replace_with.is_empty()));
         if start == 0 {
             self.consume(end);
             self.push_front(replace_with);
diff --git a/src/queue/drain.rs b/src/queue/drain.rs
index 6e71444..b52e4fe 100644
--- a/src/queue/drain.rs
+++ b/src/queue/drain.rs
@@ -12,6 +12,10 @@ pub struct DrainBytes<'a, 'b> {
 
 impl<'a, 'b> DrainBytes<'a, 'b> {
     pub(super) fn new(queue: &'b mut super::ByteQueue<'a>, start: usize, end: usize) -> Self {
+        #[cfg(not(feature = "alloc"))]
+        if start != end {
+            queue.check_room(start, end, 0);
+        }
         let ptr = queue as *mut super::ByteQueue<'a>;
         let iter = MaybeUninit::new(queue.bytes().skip(start).take(end - start));
         Self {
@@ -109,6 +113,10 @@ impl<'a, 'b> DrainChars<'a, 'b> {
         start: usize,
         end: usize,
     ) -> Self {
+        #[cfg(not(feature = "alloc"))]
+        if start != end {
+            queue.as_bytequeue().check_room(start, end, 0);
+        }
         let ptr = queue as *mut super::StringQueue<'a>;
         let iter = queue.bytes().skip(start).take(end - start);
         let iter = super::CharIter::from_byte_iter(iter);
-- 
2.43.0


From 74bef70c2260fdfe46a6fc0f7a90e49fe6f5e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 46/54] fix: reject alignments of shared bytes that do not fit
 in the start offset

---
 src/shared_bytes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 0974ab4..b1416f6 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -130,12 +130,20 @@ impl SharedBytes {
     }
 
     /// Creates a `SharedBytes` from a slice of bytes and a target alignment.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the alignment is not a power of two or is too large.
     #[inline]
     #[must_use]
     #[allow(clippy::cast_possible_truncation)]
     pub fn from_slice_aligned(dat: &[u8], align: usize) -> Self {
         fn from_slice_aligned_inner(dat: &[u8], align: usize) -> SharedBytes {
             let align = core::mem::align_of::<SharedBytesMeta>().max(align);
+            assert!(
+                align <= 0x8000_0000,
+                "SharedBytes::from_slice: alignment too large"
+            );
             let off = SharedBytesMeta::compute_start_offset(align) as usize;
             let max_size: usize = 0xFFFF_FFFF - off;
             assert!(
-- 
2.43.0


From 92bde790e5ca3fdf96f15735887f9b847ca86dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 47/54] fix: do not offset the null pointer of an empty builder
 when putting zero bytes

---
 src/bytes_1/shared_bytes_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bytes_1/shared_bytes_builder.rs b/src/bytes_1/shared_bytes_builder.rs
index d6a0fca..9eb0944 100644
--- a/src/bytes_1/shared_bytes_builder.rs
+++ b/src/bytes_1/shared_bytes_builder.rs
@@ -67,6 +67,9 @@ unsafe impl bytes::BufMut for SharedBytesBuilder {
             cnt <= self.remaining_mut(),
             "SharedBytesBuilder::put_bytes: index out of bounds"
         );
+        if cnt == 0 {
+            return;
+        }
         self.reserve(cnt);
         // SAFETY: `off` is within bounds.
         let ptr = unsafe { self.dat.add(self.off as usize) };
-- 
2.43.0


From e18f07d3806afe11e09320a5c8222133da137036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 48/54] fix: validate text returned by interners, which safe
 code can implement

---
 src/interning/byte_interning.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/interning/byte_interning.rs b/src/interning/byte_interning.rs
index 13d406e..75a677c 100644
--- a/src/interning/byte_interning.rs
+++ b/src/interning/byte_interning.rs
@@ -1,5 +1,14 @@
 use crate::{ByteData, StringData};
 
+/// Makes text of what an interner returned, which is not trusted as interners can be implemented in safe code.
+#[inline]
+fn into_text(value: ByteData<'_>) -> StringData<'_> {
+    #[allow(clippy::expect_used)]
+    StringData::try_from_bytedata(value)
+        .ok()
+        .expect("ByteInterning: the interned value is not valid UTF-8")
+}
+
 /// Trait for interning byte data.
 pub trait ByteInterning<'a> {
     /// Interns the given byte data using the rules for the interning implementation.
@@ -12,10 +21,8 @@ pub trait ByteInterning<'a> {
     #[allow(clippy::missing_errors_doc)]
     fn intern_str<'b>(&self, value: StringData<'b>) -> Result<StringData<'a>, StringData<'b>> {
         match self.intern(value.into_bytedata()) {
-            // SAFETY: The implementation of `intern` is expected to always return the same byte data.
-            Ok(value) => Ok(unsafe { StringData::from_bytedata_unchecked(value) }),
-            // SAFETY: The implementation of `intern` is expected to always return the same byte data.
-            Err(value) => Err(unsafe { StringData::from_bytedata_unchecked(value) }),
+            Ok(value) => Ok(into_text(value)),
+            Err(value) => Err(into_text(value)),
         }
     }
 
@@ -28,8 +35,7 @@ pub trait ByteInterning<'a> {
     #[inline]
     #[allow(single_use_lifetimes)]
     fn intern_always_str<'b>(&self, value: StringData<'b>) -> StringData<'a> {
-        // SAFETY: The implementation of `intern_always` is expected to always return the same byte data.
-        unsafe { StringData::from_bytedata_unchecked(self.intern_always(value.into_bytedata())) }
+        into_text(self.intern_always(value.into_bytedata()))
     }
 
     /// Gets the interned value for the given byte data if it exists, otherwise returns the given value.
@@ -42,10 +48,8 @@ pub trait ByteInterning<'a> {
     #[allow(clippy::missing_errors_doc)]
     fn get_str<'b>(&self, value: StringData<'b>) -> Result<StringData<'a>, StringData<'b>> {
         match self.get(value.into_bytedata()) {
-            // SAFETY: The implementation of `get` is expected to always return the same byte data.
-            Ok(value) => Ok(unsafe { StringData::from_bytedata_unchecked(value) }),
-            // SAFETY: The implementation of `get` is expected to always return the same byte data.
-            Err(value) => Err(unsafe { StringData::from_bytedata_unchecked(value) }),
+            Ok(value) => Ok(into_text(value)),
+            Err(value) => Err(into_text(value)),
         }
     }
 }
-- 
2.43.0


From ddeafd47440b0d1aa3261fa51a14eb205db774b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 49/54] fix: turn shared bytes with an alignment above 512 into
 a builder when they are not unique

---
 src/shared_bytes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index b1416f6..5e55755 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -563,7 +563,13 @@ impl From<SharedBytes> for SharedBytesBuilder {
                 dat: dataptr,
             }
         } else {
-            let mut ret = Self::with_alignment(align);
+            // the alignment can be greater than what `with_alignment` accepts
+            let mut ret = Self {
+                align,
+                off: SharedBytesMeta::compute_start_offset(align),
+                len: 0,
+                dat: core::ptr::null_mut(),
+            };
             ret.extend_from_slice(dat.as_slice());
             ret
         }
-- 
2.43.0


From 8cc82ead239da90e1443c106f5a8fb83694fe687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 50/54] fix: build for targets with 32-bit pointers

---
 src/bytedata.rs         | 5 +++--
 src/bytes_1/bytedata.rs | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 10f251e..22c4129 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -981,8 +981,9 @@ impl<'a> From<ByteData<'a>> for Vec<u8> {
         if !matches!(dat.kind(), Kind::External) {
             return dat.as_slice().to_vec();
         }
-        // SAFETY: External state has been checked.
-        let dat = unsafe { core::mem::transmute::<ByteData<'a>, crate::external::ExtBytes>(dat) };
+        let mut dat = core::mem::ManuallyDrop::new(dat);
+        // SAFETY: External state has been checked, and `dat` is not used after this.
+        let dat = unsafe { core::mem::ManuallyDrop::take(&mut dat.external) };
 
         let res = dat.take_inner::<Self, Self, _>(|inner| {
             let (off, len) = inner.with_slice_ref(|vec, slic| {
diff --git a/src/bytes_1/bytedata.rs b/src/bytes_1/bytedata.rs
index e1de486..85d02ed 100644
--- a/src/bytes_1/bytedata.rs
+++ b/src/bytes_1/bytedata.rs
@@ -43,9 +43,9 @@ impl<'a> From<ByteData<'a>> for bytes::Bytes {
             }
             #[cfg(feature = "alloc")]
             crate::bytedata::Kind::External => {
-                // SAFETY: External kind is already checked
-                let ext =
-                    unsafe { core::mem::transmute::<ByteData<'a>, crate::external::ExtBytes>(dat) };
+                let mut dat = core::mem::ManuallyDrop::new(dat);
+                // SAFETY: External kind is already checked, and `dat` is not used after this.
+                let ext = unsafe { core::mem::ManuallyDrop::take(&mut dat.external) };
                 let ret = ext.with_inner(|tval: &Self, extb: &[u8]| {
                     let start = {
                         let sp: *const u8 = extb.as_ptr();
-- 
2.43.0


From e41ce4e59d70237d6187bd6f9d4356e965b505f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 51/54] fix: reject a capacity beyond the address space before
 resizing a builder

---
 src/shared_bytes_builder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 9fd9c36..bae5939 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -183,9 +183,10 @@ impl SharedBytesBuilder {
         if new_len <= self.len as usize {
             return;
         }
+        // this also rejects sizes that are too large for `realloc`.
+        #[allow(clippy::unwrap_used)]
+        let layout = core::alloc::Layout::from_size_align(new_len, self.align).unwrap();
         let ptr = if self.len == 0 {
-            #[allow(clippy::unwrap_used)]
-            let layout = core::alloc::Layout::from_size_align(new_len, self.align).unwrap();
             // SAFETY: the layout must be valid
             let ptr = unsafe { alloc::alloc::alloc(layout) };
             if ptr.is_null() {
@@ -200,8 +201,6 @@ impl SharedBytesBuilder {
             // SAFETY: `old_layout` is the layout of the old allocation.
             let mut ptr = unsafe { alloc::alloc::realloc(self.dat, old_layout, new_len) };
             if ptr.is_null() {
-                #[allow(clippy::unwrap_used)]
-                let layout = core::alloc::Layout::from_size_align(new_len, self.align).unwrap();
                 // SAFETY: the layout must be valid
                 ptr = unsafe { alloc::alloc::alloc(layout) };
                 if ptr.is_null() {
-- 
2.43.0


From 0e9361a7dd2490cbde3cace9d629ae6acdb765fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 52/54] fix: reject bytes that the length of a queue cannot
 count

---
 src/queue/byte_queue.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index a5fc19c..610e78e 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -6,6 +6,14 @@ use super::byte_iter::{ByteIter, OwnedByteIter};
 use super::linked_root::LinkedRoot;
 use crate::queue::ChunkIter;
 
+/// The length after `added` bytes are put into a queue of `len` bytes.
+#[inline]
+fn add_len(len: usize, added: usize) -> usize {
+    #[allow(clippy::expect_used)]
+    len.checked_add(added)
+        .expect("ByteQueue: too many bytes in the queue")
+}
+
 /// A queue of byte chunks.
 #[cfg_attr(docsrs, doc(cfg(feature = "queue")))]
 #[derive(Clone)]
@@ -60,10 +68,10 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        let len = data.len();
+        let remain = add_len(self.remain, data.len());
         // might panic if there is no space left, so the bytes are counted afterwards
         self.queue.push_back(data);
-        self.remain += len;
+        self.remain = remain;
     }
 
     /// Prepend bytes into the queue.
@@ -73,10 +81,10 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        let len = data.len();
+        let remain = add_len(self.remain, data.len());
         // might panic if there is no space left, so the bytes are counted afterwards
         self.queue.push_front(data);
-        self.remain += len;
+        self.remain = remain;
     }
 
     /// Remove bytes from the front of the queue.
@@ -374,7 +382,7 @@ impl<'a> ByteQueue<'a> {
     #[inline]
     #[cfg(feature = "alloc")]
     pub fn append(&mut self, mut other: Self) {
-        self.remain += other.remain;
+        self.remain = add_len(self.remain, other.remain);
         other.remain = 0;
         self.queue
             .append(core::mem::replace(&mut other.queue, LinkedRoot::new()));
-- 
2.43.0


From 6cc700b3d8124bb0d355076386a7dc698bb3fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 53/54] fix: do not trust the upper size hint when collecting
 bytes

---
 src/bytedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 22c4129..15d9bc8 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -1222,7 +1222,8 @@ impl FromIterator<u8> for ByteData<'_> {
     fn from_iter<T: IntoIterator<Item = u8>>(iter: T) -> Self {
         let iter = iter.into_iter();
         let siz = match iter.size_hint() {
-            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8),
+            // the upper bound can be far more than there will be
+            (min, Some(siz)) => min.saturating_add((siz.saturating_sub(min) >> 2_u8).min(4096)),
             (siz, None) => siz,
         };
         let mut dat = crate::shared_bytes_builder::SharedBytesBuilder::with_capacity(siz);
-- 
2.43.0


From 2bb94d738629e59c856c51c61d4dded4572ca52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 54/54] fix: generating a queue without heap support panicked
 once it was full

---
 src/arbitrary_1/byte_queue.rs   | 4 ++--
 src/arbitrary_1/string_queue.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary_1/byte_queue.rs b/src/arbitrary_1/byte_queue.rs
index 1f654f2..5376af9 100644
--- a/src/arbitrary_1/byte_queue.rs
+++ b/src/arbitrary_1/byte_queue.rs
@@ -13,7 +13,7 @@ impl<'a> Arbitrary<'a> for ByteQueue<'a> {
     fn arbitrary(u: &mut Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
         let mut maxlen = u.arbitrary_len::<ByteData<'a>>()?;
-        while !u.is_empty() && maxlen != 0 {
+        while !u.is_empty() && maxlen != 0 && !buffer.is_full() {
             let data = u.arbitrary::<ByteData<'a>>()?;
             maxlen -= 1;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
@@ -33,7 +33,7 @@ impl<'a> Arbitrary<'a> for ByteQueue<'a> {
     )]
     fn arbitrary_take_rest(mut u: Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
-        while !u.is_empty() {
+        while !u.is_empty() && !buffer.is_full() {
             let data = u.arbitrary::<ByteData<'a>>()?;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
             if dir {
diff --git a/src/arbitrary_1/string_queue.rs b/src/arbitrary_1/string_queue.rs
index fbd3afd..081c6e6 100644
--- a/src/arbitrary_1/string_queue.rs
+++ b/src/arbitrary_1/string_queue.rs
@@ -13,7 +13,7 @@ impl<'a> Arbitrary<'a> for StringQueue<'a> {
     fn arbitrary(u: &mut Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
         let mut maxlen = u.arbitrary_len::<StringData<'a>>()?;
-        while !u.is_empty() && maxlen != 0 {
+        while !u.is_empty() && maxlen != 0 && !buffer.is_full() {
             let data = u.arbitrary::<StringData<'a>>()?;
             maxlen -= 1;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
@@ -33,7 +33,7 @@ impl<'a> Arbitrary<'a> for StringQueue<'a> {
     )]
     fn arbitrary_take_rest(mut u: Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
-        while !u.is_empty() {
+        while !u.is_empty() && !buffer.is_full() {
             let data = u.arbitrary::<StringData<'a>>()?;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
             if dir {
-- 
2.43.0

