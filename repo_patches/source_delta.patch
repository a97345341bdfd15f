From a13156dd57cbd1f66ffc1de56df895ce2f10a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 01/25] fix: ReadFallbackIterator resumes behind a corrupted
 message

A marker followed by an invalid header ended the iteration, so that every
message behind a single corrupted one was lost.
---
 matchit/src/searchable/readfallbackit.rs | 47 +++++++++---------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 90e0836..78f5dc7 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,38 +45,25 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        if self.offset + T::marker().len() >= self.bytes.len() {
-            return None
-        }
-        if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
-            // a valid T at offset
-            match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-                Some((bytes_read, val)) => {
-                    let _off = self.offset;
-                    self.offset += bytes_read;
-                    Some((_off, val))
-                },
-                None => {
-                    None
-                }
-            }
-        } else {
-                // no valid T at offset, searching for a marker
-                match search_marker::<T>(&self.bytes[self.offset..]) {
-                    Some(position) => {
-                        if position == 0 {
-                            // a match with offset = 0 indicates a slice starting with a valid marker
-                            // without containing a valid result
-                            None
-                        } else {
-                            self.offset += position;
-                            self.next()
-                        }
-                    }
-                    None => {
-                        None
+        while self.offset + T::marker().len() < self.bytes.len() {
+            if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
+                // a valid T at offset
+                match T::try_read_valid_marker(&self.bytes[self.offset..]) {
+                    Some((bytes_read, val)) => {
+                        let _off = self.offset;
+                        self.offset += bytes_read;
+                        return Some((_off, val))
                     },
+                    None => {
+                        // corrupted T: continue the search behind its marker
+                        self.offset += T::marker().len();
+                    }
                 }
+            } else {
+                // no valid T at offset, searching for a marker
+                self.offset += search_marker::<T>(&self.bytes[self.offset..])?;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From 13556b83da894d3fc92f3aa8c9dff2d9562ff569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 02/25] fix: marker search iterators end, and end in linear
 time

RevSearchIterator::next never returned when it was called again after the
end, and missed a marker when it was started behind the end of the buffer.
Both iterators rescanned a marker-free stretch once per marker length.
---
 matchit/src/searchable/searchit.rs | 47 +++++++++++++++---------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..1f5730c 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -51,17 +51,17 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
-            }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
+        loop {
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset + t.len();
+                    return Some((offset, t))
+                }
+                None => {
+                    // skip the next marker, it does not start a valid T
+                    let candidate = self.finder.find(self.bytes.get(self.offset..)?)?;
+                    self.offset += candidate + T::marker().len();
                 }
-                self.next()
             }
         }
     }
@@ -107,22 +107,23 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
-            }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
+        while self.offset != usize::MAX {
+            self.offset = self.offset.min(self.bytes.len());
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset;
+                    return Some((self.offset, t))
+                }
+                None => {
+                    // skip the last marker, it does not start a valid T
+                    match self.finder.rfind(&self.bytes[..self.offset]) {
+                        Some(candidate) => self.offset = candidate,
+                        None => self.offset = usize::MAX,
+                    };
                 }
-                self.next()
             }
         }
+        None
     }
 }
 
-- 
2.43.0


From 029424e456b1f8d9e8a712ec765615728b754a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 03/25] fix: message type info uses all four bits of the
 message info byte

The mask was 0x15 << 4 instead of 0xf << 4, so that for example DltLogWarn
was read and written as DltLogFatal.
---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..bf14e1b 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0xf << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
-- 
2.43.0


From 1a5534d4c50c0e70c0ed12acff5855c8da74fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 04/25] fix: create_message_type writes the message type

`DltMessageType::DltTypeLog as u8` casts the address of the variant's
constructor function, not its discriminant.
---
 rapiddlt/src/dlt_v1.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index bf14e1b..8dd3f97 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (1 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (2 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (3 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From fd11c8b1fdc361e6be7585c4e3607385b1af665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 05/25] fix: header accessors return None for messages too
 short for their flags

ecu_id, extended_header and payload panicked on a message whose header type
announces optional fields that the message length leaves no room for.
---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 8dd3f97..1c35558 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From bfa41ebcec0b03c2313417b5a1c09df4c5c45e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 06/25] fix: the maximum length of a stored message includes
 its storage header

---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 1c35558..b9b8354 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        u16::MAX as usize + mem::size_of::<DltStorageHeader>()
     }
 }
 
-- 
2.43.0


From ba87e226e2fa0cb5aa9a4b4c762d574c5e3707d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 07/25] fix: contained_by finds the outermost container, in
 linear time

---
 matchit/src/lib.rs | 68 ++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..35b51ba 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -6,8 +6,8 @@ pub mod readit;
 
 use std::{marker::PhantomData};
 
-use memchr::memmem::Finder;
-use searchable::SearchableMarkerTrait;
+use memchr::memmem::FinderRev;
+use searchable::{readfallbackit::ReadFallbackIterator, SearchableMarkerTrait};
 
 pub type WithOffset<T> = (usize, T);
 
@@ -54,57 +54,55 @@ where
     fn max_len() -> usize;
 }
 
-/// Stores a ``memchr::memmem::Finder`` for searching ``T::marker()`` patterns.
-pub struct ContainedBySearch<T>(Finder<'static>, PhantomData<T>);
+/// Stores a ``memchr::memmem::FinderRev`` for searching ``T::marker()`` patterns.
+pub struct ContainedBySearch<T>(FinderRev<'static>, PhantomData<T>);
 
 impl<'bytes, T> ContainedBySearch<T> 
 where
     T: SearchableMarkerTrait<'bytes>
 {
-    /// Initializes a ``memchr::memmem::Finder`` for searching ``T::marker()`` patterns.
+    /// Initializes a ``memchr::memmem::FinderRev`` for searching ``T::marker()`` patterns.
     pub fn new() -> Self {
-        Self(Finder::new(T::marker()), PhantomData)
+        Self(FinderRev::new(T::marker()), PhantomData)
     }
 
-    /// Recursively searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
-    /// 
-    /// Let's assume ``T(payload)`` denotes that ``payload`` is contained by ``T``.
-    /// If a valid ``T0(payload)`` is found, the algorithm makes sure this is in turn not
-    /// contained by a previous ``T1(T0(payload))``.
-    /// This validity check is performed recursively until no containing ``T_n(...(T1(payload))`` 
-    /// is found anymore.
+    /// Searches for the valid ``T`` that contains the slice ``(payload.0 .. payload.1)``.
+    ///
+    /// A valid ``T0(payload)`` may in turn be contained by a previous ``T1(T0(payload))`` and so on.
+    /// The algorithm therefore goes back to a position that no previous ``T`` reaches over
+    /// and reads from there to the ``T`` that starts last in front of ``payload``.
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.1 > bytes.len() || payload.0 >= payload.1 {
             return None
         }
-        
-        // go back max payload size
-        let backwards_offset = match payload.0.checked_sub(T::max_len()) {
-            Some(val) => val,
-            None => 0,
-        };
-        
-        let iter = self.0.find_iter(&bytes[backwards_offset..]);
-        
-        for candidate_idx in iter.map(|x| x + backwards_offset) {
-            if candidate_idx >= payload.0 {
-                return None
+
+        let mut start = payload.0;
+        // the marker itself may reach into payload
+        let end = bytes.len().min(payload.0 + T::marker().len() - 1);
+        for candidate_idx in self.0.rfind_iter(&bytes[..end]) {
+            // no T in front of candidate_idx reaches to start
+            if candidate_idx + T::max_len() <= start {
+                break;
             }
             if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
-
-                // needs to contain payload.1
-                if candidate_idx + container.len() >= payload.1 {
-                    // recursively check whether the current container is contained in another container
-                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + T::marker().len())) {
-                        Some(_) => continue,
-                        None => Some((candidate_idx, container)),
-                    };
+                if candidate_idx + container.len() > start {
+                    start = candidate_idx;
                 }
             }
         }
-        None
+
+        if start == payload.0 {
+            return None
+        }
+
+        // no T in front of payload reaches behind this end
+        let end = bytes.len().min(payload.0.saturating_add(T::max_len()));
+        ReadFallbackIterator::<T>::new(&bytes[..end], start)
+            .take_while(|(idx, _)| *idx < payload.0)
+            .last()
+            .filter(|(idx, container)| idx + container.len() >= payload.1)
     }
 }
 
-- 
2.43.0


From b3b2c2fa87aa9805ee3539459c06169853691a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 08/25] fix: partition_from keeps all bytes when a message
 exceeds a partition

---
 matchit/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 35b51ba..cb71d2a 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -112,19 +112,30 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
+    if bytes.is_empty() {
+        return result
+    }
+    let size = (bytes.len() / num).max(1);
     let mut candidate = (0, size);
 
     let search = ContainedBySearch::<T>::new();
     loop {
-        // out of bounds checks: canidates may not exceed ``bytes`` slice and
-        if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
+        // the last partition takes what is left
+        if candidate.1 >= bytes.len() {
+            result.push(&bytes[candidate.0..]);
             break;
         }
-        candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
+        // no T spans over candidate.0, it is the end of the previous partition
+        let rest = &bytes[candidate.0..];
+        let split = candidate.1 - candidate.0;
+        candidate.1 = match search.contained_by(rest, (split, split+1)) {
+            // T does not fit into the partition: split behind it
+            Some((0, val)) => {
+                candidate.0 + val.len()
+            },
             Some((container ,_)) => {
                 // in ~99 percent of the cases, candidate.1 points to a valid T.
-                container
+                candidate.0 + container
             },
             None => {
                 // if no containing T was found, candidate.1 points to invalid raw data,
@@ -132,11 +143,6 @@ pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [
                 candidate.1
             },
         };
-        
-        // candidate.1 may not point to a container that is part of another partition
-        if candidate.0 >= candidate.1 {
-            break;
-        }
 
         // store result and check for the next candidate for a split
         if candidate.1 + size /4 >= bytes.len() {
-- 
2.43.0


From 5a33c755331aa7c07af5db3c667fde72c11e6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 09/25] fix: pattern search finds every message with a match
 and always ends

---
 matchit/src/searchable/grepit.rs | 46 +++++++++++++++++---------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..496fb3a 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -3,7 +3,15 @@ use std::marker::PhantomData;
 use regex::bytes::Regex;
 use crate::{TIterator, WithOffset};
 
-use super::{searchit::RevSearchIterator, SearchableMarkerTrait};
+use super::{search_marker, searchit::RevSearchIterator, SearchableMarkerTrait};
+
+/// Returns where the first marker behind or around ``offset`` ends.
+fn next_marker_end<'bytes, T>(bytes: &'bytes [u8], offset: usize) -> Option<usize>
+    where T: SearchableMarkerTrait<'bytes>
+{
+    let start = offset.saturating_sub(T::marker().len() - 1);
+    Some(start + search_marker::<T>(&bytes[start..])? + T::marker().len())
+}
 
 #[derive(Debug)]
 pub struct GrepIterator<'bytes, T>
@@ -32,28 +40,24 @@ impl<'bytes, T> GrepIterator<'bytes, T>
 {
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
+        let mut offset = offset;
+        while offset < bytes.len() {
+            let foundit = self.finder.find_at(bytes, offset)?.range();
+
+            offset = match self.iter.search(bytes, foundit.start) {
+                Some((_off, val)) if foundit.start < _off + val.len() => {
+                    let end = _off + val.len();
+                    // a match that exceeds val may hide a shorter one
+                    if foundit.end <= end || self.finder.find_at(&bytes[..end], foundit.start).is_some() {
+                        return Some((_off, val))
+                    }
                     // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.search(bytes, foundit.end)
-            },
+                    end
+                },
+                _ => next_marker_end::<T>(bytes, foundit.start)?,
+            }
         }
-
+        None
     }
 }
 
-- 
2.43.0


From 60824b2423c933b6a54e6aea39a1b1e1b1d37461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 10/25] fix: capture search finds every message with a match
 and always ends

---
 matchit/src/searchable/grepit.rs | 40 +++++++++++++++-----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index 496fb3a..653abef 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -105,30 +105,27 @@ where
 {
     #[inline(always)]
     pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
+        let mut offset = offset;
         let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
-
-        let foundit = captures.range();
+        while offset < bytes.len() {
+            let foundit = self.finder.captures_read_at(&mut locs, bytes, offset)?.range();
 
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
+            offset = match self.iter.search(bytes, foundit.start) {
+                Some((_off, val)) if foundit.start < _off + val.len() => {
+                    let end = _off + val.len();
+                    // a match that exceeds val may hide a shorter one
+                    if foundit.end <= end || self.finder.captures_read_at(&mut locs, &bytes[..end], foundit.start).is_some() {
+                        if let Some(group) = locs.get(1) {
+                            return Some((_off, group))
+                        }
+                    }
                     // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.capture(bytes, foundit.end)
-            },
+                    end
+                },
+                _ => next_marker_end::<T>(bytes, foundit.start)?,
+            }
         }
+        None
     }
 }
 
@@ -144,7 +141,8 @@ where
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        let (_, entry) = T::try_read_valid_marker(&self.bytes[offset..])?;
+        self.offset = offset + entry.len();
 
         Some((offset, val))
     }
-- 
2.43.0


From 558c2db23a4b1274facd1e3ece8cb1c8581b6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 11/25] fix: groupby keeps the element behind a dropped one

---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From 8334a1fe7088975e4738a68fae2d3331e81ec56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 12/25] fix: merge until nothing can be merged any further

---
 matchit/src/generator/groupby.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index 841d7e8..2ddf907 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -126,21 +126,27 @@ where
 
     #[inline(always)]
     fn adapt(&mut self, next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
-        let mut consumed = None;
+        let mut next = next;
 
-        for (_, prev) in self.2.iter() {
-            let ret = (self.0)(prev, &next);
-            if let Some(val) = ret {
-                consumed = Some((prev.clone(), val));
+        loop {
+            let mut consumed = None;
+
+            for (_, prev) in self.2.iter() {
+                let ret = (self.0)(prev, &next);
+                if let Some(val) = ret {
+                    consumed = Some((prev.clone(), val));
+                    break;
+                }
+            }
+            if let Some((prev, val)) = consumed {
+                // the merged value may reach further ones
+                self.2.remove(&(self.1)(&prev));
+                next = val;
+            } else {
+                self.2.insert((self.1)(&next), next);
                 break;
             }
         }
-        if let Some((prev, val)) = consumed {
-            self.2.remove(&(self.1)(&prev));
-            self.2.insert((self.1)(&val), val);
-        } else {
-            self.2.insert((self.1)(&next), next);
-        }
         ControlFlow::Continue(None)
     }
 }
-- 
2.43.0


From a58801741f983bd2f01c3b9be142c97b8a2b9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 13/25] fix: read_file reports read errors

---
 rapiddlt/src/dltbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..6e8ba1d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -16,7 +16,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From c5250f290f0653cf197959da0a396957d66a1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 14/25] fix: mmap_file opens empty files

---
 rapiddlt/src/dltbuffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 6e8ba1d..d9d234d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -9,6 +9,10 @@ pub enum DltBuffer {
 impl DltBuffer {
     pub fn mmap_file (filename: &str) -> Result<Self,io::Error> {
         let file = File::open(filename)?;
+        // an empty file cannot be mapped
+        if file.metadata()?.len() == 0 {
+            return Self::read_file(filename)
+        }
         let mmap = unsafe { MmapOptions::new().map(&file)? };
         Ok(DltBuffer::Mmap(mmap))
     }
-- 
2.43.0


From 4cedee9444943ad9dd3d90dcb37802044785fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 15/25] fix: hello world count skips messages without payload

---
 ripdlt/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index edfe799..a5e9ddd 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -106,7 +106,7 @@ fn count_hello_world(mmap: &[u8]) -> usize {
 
     let it = dltit(mmap);
 
-    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().expect("needs to be a valid DLT")).next().is_some();
+    let predicate = |a: &DltStorageEntry<'_>| a.dlt.payload().is_some_and(|p| finder.find_iter(p).next().is_some());
     let result = it
         .filter(predicate)
         .count();
-- 
2.43.0


From 419fe76b4ff2473ecd34eaf05919999b74412754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 16/25] fix: lifecycle commands skip messages too short for
 their timestamp

---
 ripdlt/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index a5e9ddd..4b5ed31 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -164,7 +164,7 @@ fn lifecycle_splitit(mmap: DltBuffer) -> BTreeMap<[u8;4],  (BTreeMap<u32, usize>
     let mapping = |r: &(DltStorageEntry<'_>,DltStorageEntry<'_>)| (r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap()) / 10000;
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .split(
             |a: &DltStorageEntry<'_>| a.storage_header.ecu,
             |_| Generator::fork(
@@ -227,7 +227,7 @@ fn lifecycle_histogram(mmap: DltBuffer) -> BTreeMap<usize, usize> {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| a.dlt.ecu_id() == b.dlt.ecu_id() && b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .map(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap())
     ;
@@ -265,7 +265,7 @@ fn lifecycle_iter(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
@@ -281,7 +281,7 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .tuple_windows()
         .filter( |(a,b) |(predicate)(a,b))
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
-- 
2.43.0


From 7a8df6872cef4aa241dd8591448e374594506614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 17/25] fix: message type histogram skips messages too short
 for their extended header

---
 ripdlt/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 4b5ed31..8325c4d 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -153,7 +153,7 @@ fn mstp_info_histogram(mmap: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType
     let it = dltit(mmap.as_slice());
 
     it
-        .filter(|dlt| dlt.dlt.header.header_type.is_extended_header())
+        .filter(|dlt| dlt.dlt.extended_header().is_some())
         .split(|dlt|  dlt.dlt.extended_header().unwrap().msin.info(), |_| Generator::count() )
 }
 
-- 
2.43.0


From 2618d39eb7c947b0faad90555c6bfa1ba1a6fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 18/25] fix: print ECU ids that are not valid UTF-8

---
 ripdlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 8325c4d..952ed52 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -321,19 +321,19 @@ fn main() {
         "split_lifecycles" =>{
             println!("Distribution of lifecycle durations:");
             for (k,v) in lifecycle_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in timestamp_splitit(mmap.as_slice()) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "par_split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in par_timestamp_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "histogram_timestamp" =>{
-- 
2.43.0


From eba2d6ddd373e936a82a257aefd9b64bdf84b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 19/25] fix: dd_dlt writes every message completely

---
 dd_dlt/src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..f4fbd40 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -47,15 +47,16 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
+    io::stdout().flush()?;
     eprintln!("wrote {} DLT messages with payload size={}b", count, payload_size);
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From cce593ff0a32cc7e1a2f08ec25ec2f0eca729feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 20/25] fix: dd_dlt reports read errors

---
 dd_dlt/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index f4fbd40..6a06a97 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -27,7 +27,8 @@ fn main() -> Result<(), std::io::Error> {
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
             Ok(_) => (),
-            _ => {break;}
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {break;},
+            Err(e) => return Err(e)
         };
 
         // DltStorageHeader
-- 
2.43.0


From 32271080bf486242de6503e7726d054f28f76ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 21/25] fix: dd_dlt refuses payload sizes that do not fit a DLT
 message

---
 dd_dlt/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 6a06a97..991b2eb 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -17,8 +17,9 @@ fn main() -> Result<(), std::io::Error> {
     let appid = args[2].as_bytes();
 
     let payload_size: u16 = match args[3].parse::<u16>() {
-        Ok(val) => val,
-        Err(_) => panic!("wrong parameter"),
+        // the length of a DLT message includes 4 + 10 + 4 bytes of headers
+        Ok(val) if val > 0 && val <= u16::MAX - 18 => val,
+        _ => panic!("wrong parameter"),
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-- 
2.43.0


From fedf61c7d245927c1d30ed9e36a3e7212c5519fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 22/25] fix: itertools command counts lifecycles instead of
 gaps between neighbouring messages

---
 ripdlt/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 952ed52..728e21b 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -282,8 +282,8 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
 
     let result = it
         .filter(|e| e.dlt.timestamp().is_some())
-        .tuple_windows()
-        .filter( |(a,b) |(predicate)(a,b))
+        .map(|e| (e, e))
+        .coalesce(|a, b| if (predicate)(&a.1, &b.0) { Ok((a.0, b.1)) } else { Err((a, b)) })
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
     let r = result.count();
-- 
2.43.0


From 751c312b5ad1551d33e7f68c4fa3e622947a2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:45 +0000
Subject: [PATCH 23/25] fix: types without a greatest length are found as
 containers

---
 matchit/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index cb71d2a..1946b42 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -83,7 +83,7 @@ where
         let end = bytes.len().min(payload.0 + T::marker().len() - 1);
         for candidate_idx in self.0.rfind_iter(&bytes[..end]) {
             // no T in front of candidate_idx reaches to start
-            if candidate_idx + T::max_len() <= start {
+            if start - candidate_idx >= T::max_len() {
                 break;
             }
             if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
-- 
2.43.0


From b2b4126381ae4f35f9e71bb5d0531ff600c01e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:33 +0000
Subject: [PATCH 24/25] fix: reading from an offset near usize::MAX ends
 instead of panicking

---
 matchit/src/searchable/readfallbackit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 78f5dc7..63e38aa 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,7 +45,7 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        while self.offset + T::marker().len() < self.bytes.len() {
+        while self.offset < self.bytes.len().saturating_sub(T::marker().len()) {
             if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
                 // a valid T at offset
                 match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-- 
2.43.0


From 546de3cb7bc6a9f56d31a346efe197e43d46b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:33 +0000
Subject: [PATCH 25/25] fix: searching backwards from usize::MAX starts at the
 end of the data

---
 matchit/src/searchable/searchit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index 1f5730c..b1ef2ce 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -94,7 +94,7 @@ impl<'bytes, T> RevSearchIterator<'bytes, T>
 impl<'bytes, T> TIterator<'bytes> for RevSearchIterator<'bytes, T>
         where T: SearchableMarkerTrait<'bytes> {
     fn new(bytes: &'bytes [u8], offset: usize) -> RevSearchIterator<'bytes, T> {
-        RevSearchIterator {offset, bytes, phantom: PhantomData,
+        RevSearchIterator {offset: offset.min(bytes.len()), bytes, phantom: PhantomData,
             finder: memmem::FinderRev::new(T::marker()),
         }
     }
-- 
2.43.0

