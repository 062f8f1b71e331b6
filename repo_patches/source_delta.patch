From 560ef52f4e6c26bbda81cbfe17b47385afbb912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 01/35] fix: bytes beyond the initialized size of a
 non-resident value read as zeros

---
 src/attribute.rs                              |  8 +++++
 .../attribute_list_non_resident.rs            |  5 +--
 src/attribute_value/non_resident.rs           | 33 ++++++++++++++++---
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..6da77d9 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -288,6 +288,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             data,
             position,
             self.non_resident_value_data_size(),
+            self.non_resident_value_initialized_size(),
         )
     }
 
@@ -312,6 +313,12 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         LittleEndian::read_u64(&self.file.record_data()[start..])
     }
 
+    fn non_resident_value_initialized_size(&self) -> u64 {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, initialized_size);
+        LittleEndian::read_u64(&self.file.record_data()[start..])
+    }
+
     fn non_resident_value_data_runs_offset(&self) -> u16 {
         debug_assert!(!self.is_resident());
         let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, data_runs_offset);
@@ -512,6 +519,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.instance(),
                 self.ty()?,
                 data_size,
+                self.non_resident_value_initialized_size(),
             )?;
             Ok(NtfsAttributeValue::AttributeListNonResident(value))
         } else if self.is_resident() {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 564169b..5f166ca 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -46,13 +46,14 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         instance: u16,
         ty: NtfsAttributeType,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
         let connected_entries =
             AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -183,7 +184,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     {
         self.connected_entries.attribute_list_entries =
             Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state = self.stream_state.rewound();
         self.next_attribute(fs)?;
 
         Ok(())
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..3694d1b 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -40,9 +40,10 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         data: &'f [u8],
         position: NtfsPosition,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self> {
         let stream_data_runs = NtfsDataRuns::new(ntfs, data, position);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -112,7 +113,7 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state = self.stream_state.rewound();
         self.next_data_run()?;
 
         Ok(())
@@ -479,6 +480,14 @@ impl NtfsDataRun {
         }
     }
 
+    /// Fills the buffer with zeros up to the end of this Data Run and returns the number of bytes filled.
+    fn read_zeros(&mut self, buf: &mut [u8]) -> usize {
+        let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
+        buf[..bytes_to_read].fill(0);
+        self.stream_position += bytes_to_read as u64;
+        bytes_to_read
+    }
+
     pub(crate) fn remaining_len(&self) -> u64 {
         self.allocated_size().saturating_sub(self.stream_position)
     }
@@ -531,17 +540,26 @@ pub(crate) struct StreamState {
     stream_position: u64,
     /// Total (used) data size, in bytes.
     data_size: u64,
+    /// Number of bytes from the beginning of the value that have been written to disk.
+    /// Everything behind that reads as zeros, even if clusters are allocated for it.
+    initialized_size: u64,
 }
 
 impl StreamState {
-    pub(crate) const fn new(data_size: u64) -> Self {
+    pub(crate) const fn new(data_size: u64, initialized_size: u64) -> Self {
         Self {
             stream_data_run: None,
             stream_position: 0,
             data_size,
+            initialized_size,
         }
     }
 
+    /// Returns a `StreamState` for the same value at its very beginning.
+    pub(crate) const fn rewound(&self) -> Self {
+        Self::new(self.data_size, self.initialized_size)
+    }
+
     /// Returns the absolute current data seek position within the filesystem, in bytes.
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
@@ -653,7 +671,14 @@ impl StreamState {
         let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
 
         // Perform the actual read.
-        let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
+        // Whatever lies beyond the initialized size has never been written and reads as zeros.
+        let remaining_initialized_size = self.initialized_size.saturating_sub(self.stream_position);
+        let bytes_read_in_data_run = if remaining_initialized_size == 0 {
+            data_run.read_zeros(&mut buf[start..end])
+        } else {
+            let end = start + (end - start).min(remaining_initialized_size as usize);
+            data_run.read(fs, &mut buf[start..end])?
+        };
         if bytes_read_in_data_run == 0 {
             return Ok(false);
         }
-- 
2.43.0


From 8ef98775dcddfb5f7fb76a1a9ca268336208e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 02/35] fix: a data run at LCN 0 holds real data and is not
 sparse

---
 src/attribute_value/non_resident.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 3694d1b..6d946ba 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -7,6 +7,7 @@
 
 use core::iter::FusedIterator;
 use core::mem;
+use core::num::NonZeroU64;
 
 use binrw::io;
 use binrw::io::Cursor;
@@ -402,7 +403,9 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         ));
 
         // The VCN may either indicate "real" data or a sparse Data Run.
-        let position = if vcn.value() != 0 {
+        // Only a Data Run without a VCN is sparse: A VCN of zero is fine for "real" data that begins at the LCN of the
+        // previous Data Run or at the very beginning of the filesystem (as for $Boot).
+        let position = if vcn_byte_count > 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
             let new_lcn = iter_try!(self.state.previous_lcn.checked_add(vcn).ok_or(
@@ -413,10 +416,11 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                 }
             ));
             self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+            let position = iter_try!(new_lcn.position(self.ntfs));
+            Some(position.value().map_or(0, NonZeroU64::get))
         } else {
             // This is a sparse Data Run.
-            NtfsPosition::none()
+            None
         };
 
         // Only advance after having checked for success.
@@ -445,8 +449,8 @@ pub(crate) struct DataRunsState {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct NtfsDataRun {
     /// Absolute position of the Data Run within the filesystem, in bytes.
-    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run.
-    position: NtfsPosition,
+    /// This is `None` if this is a "sparse" Data Run.
+    position: Option<u64>,
     /// Total allocated size of the Data Run, in bytes.
     /// The actual size used by data may be lower, but a Data Run does not know about that.
     allocated_size: u64,
@@ -455,7 +459,7 @@ pub struct NtfsDataRun {
 }
 
 impl NtfsDataRun {
-    pub(crate) fn new(position: NtfsPosition, allocated_size: u64) -> Self {
+    pub(crate) fn new(position: Option<u64>, allocated_size: u64) -> Self {
         Self {
             position,
             allocated_size,
@@ -473,10 +477,11 @@ impl NtfsDataRun {
     ///   * The current seek position is outside the valid range, or
     ///   * The Data Run is a "sparse" Data Run
     pub fn data_position(&self) -> NtfsPosition {
-        if self.stream_position <= self.allocated_size() {
-            self.position + self.stream_position
-        } else {
-            NtfsPosition::none()
+        match self.position {
+            Some(position) if self.stream_position <= self.allocated_size() => {
+                NtfsPosition::new(position + self.stream_position)
+            }
+            _ => NtfsPosition::none(),
         }
     }
 
@@ -505,9 +510,9 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
         let work_slice = &mut buf[..bytes_to_read];
 
-        let bytes_read = if let Some(position) = self.position.value() {
+        let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
-            fs.seek(SeekFrom::Start(position.get() + self.stream_position))?;
+            fs.seek(SeekFrom::Start(position + self.stream_position))?;
             fs.read(work_slice)?
         } else {
             // This is a sparse Data Run.
-- 
2.43.0


From a367fac4976d95ea9be8e17b84f8ab2f2419e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 03/35] fix: a data run that cannot be located yields the same
 error again

---
 src/attribute_value/non_resident.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 6d946ba..2ffd658 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -405,6 +405,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         // The VCN may either indicate "real" data or a sparse Data Run.
         // Only a Data Run without a VCN is sparse: A VCN of zero is fine for "real" data that begins at the LCN of the
         // previous Data Run or at the very beginning of the filesystem (as for $Boot).
+        let mut previous_lcn = self.state.previous_lcn;
         let position = if vcn_byte_count > 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
@@ -415,7 +416,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                     previous_lcn: self.state.previous_lcn,
                 }
             ));
-            self.state.previous_lcn = new_lcn;
+            previous_lcn = new_lcn;
             let position = iter_try!(new_lcn.position(self.ntfs));
             Some(position.value().map_or(0, NonZeroU64::get))
         } else {
@@ -427,6 +428,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         // In case of an error, a subsequent call shall output the same error again.
         let bytes_to_advance = cursor.stream_position().unwrap() as usize;
         self.state.offset += bytes_to_advance;
+        self.state.previous_lcn = previous_lcn;
 
         let data_run = NtfsDataRun::new(position, allocated_size);
         Some(Ok(data_run))
-- 
2.43.0


From a7af04f58cb927b894552eb26edf32a71f02089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 04/35] fix: refuse a data run that ends beyond the address
 range

---
 src/attribute_value/non_resident.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 2ffd658..7b3808f 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -418,7 +418,13 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             ));
             previous_lcn = new_lcn;
             let position = iter_try!(new_lcn.position(self.ntfs));
-            Some(position.value().map_or(0, NonZeroU64::get))
+            let position = position.value().map_or(0, NonZeroU64::get);
+
+            // The entire Data Run must be addressable.
+            iter_try!(position
+                .checked_add(allocated_size)
+                .ok_or(NtfsError::LcnTooBig { lcn: new_lcn }));
+            Some(position)
         } else {
             // This is a sparse Data Run.
             None
-- 
2.43.0


From 9f27a0996ce631d9ec6533787a6428c3b3d25d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 05/35] fix: sizes of 4 GiB and more are not truncated to the
 pointer width when reading a value

---
 src/attribute_value/non_resident.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 7b3808f..ff0e31f 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -495,7 +495,7 @@ impl NtfsDataRun {
 
     /// Fills the buffer with zeros up to the end of this Data Run and returns the number of bytes filled.
     fn read_zeros(&mut self, buf: &mut [u8]) -> usize {
-        let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
+        let bytes_to_read = u64::min(buf.len() as u64, self.remaining_len()) as usize;
         buf[..bytes_to_read].fill(0);
         self.stream_position += bytes_to_read as u64;
         bytes_to_read
@@ -515,7 +515,7 @@ impl NtfsReadSeek for NtfsDataRun {
             return Ok(0);
         }
 
-        let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
+        let bytes_to_read = u64::min(buf.len() as u64, self.remaining_len()) as usize;
         let work_slice = &mut buf[..bytes_to_read];
 
         let bytes_read = if let Some(position) = self.position {
@@ -681,7 +681,7 @@ impl StreamState {
         // Read up to the buffer length or up to the (used) data size, whatever comes first.
         let start = *bytes_read;
         let remaining_buf_len = buf.len() - start;
-        let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
+        let end = start + u64::min(remaining_buf_len as u64, remaining_data_size) as usize;
 
         // Perform the actual read.
         // Whatever lies beyond the initialized size has never been written and reads as zeros.
@@ -689,7 +689,7 @@ impl StreamState {
         let bytes_read_in_data_run = if remaining_initialized_size == 0 {
             data_run.read_zeros(&mut buf[start..end])
         } else {
-            let end = start + (end - start).min(remaining_initialized_size as usize);
+            let end = start + u64::min((end - start) as u64, remaining_initialized_size) as usize;
             data_run.read(fs, &mut buf[start..end])?
         };
         if bytes_read_in_data_run == 0 {
-- 
2.43.0


From 9247408c0cf6be6145906246d528debac27720d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 06/35] fix: a filesystem that ends within a data run is an
 error, not the end of that run

---
 src/attribute_value/non_resident.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index ff0e31f..3a651d0 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -521,7 +521,16 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
             fs.seek(SeekFrom::Start(position + self.stream_position))?;
-            fs.read(work_slice)?
+            let bytes_read = fs.read(work_slice)?;
+            if bytes_read == 0 && !work_slice.is_empty() {
+                // The filesystem ends before this Data Run does.
+                // This must not be mistaken for the end of the Data Run.
+                return Err(NtfsError::Io(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "filesystem ends within a data run",
+                )));
+            }
+            bytes_read
         } else {
             // This is a sparse Data Run.
             work_slice.fill(0);
-- 
2.43.0


From 2d59b0a269c1d755e1bf3f3d841805a66fef61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 07/35] fix: an error after a partial read of a non-resident
 value does not lose the bytes read before

---
 .../attribute_list_non_resident.rs            | 46 +++++++++++--------
 src/attribute_value/non_resident.rs           | 35 +++++++++-----
 2 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 5f166ca..6d5139c 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -178,6 +178,26 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     }
 
     /// Rewinds this value reader to the very beginning.
+    /// Reads from the current Data Run or moves to the next one (possibly of the next connected attribute).
+    /// Returns whether there may be more to read.
+    fn read_next<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // Read from the current Data Run if there is one.
+        if self.stream_state.read_data_run(fs, buf, bytes_read)? {
+            return Ok(true);
+        }
+
+        // Move to the next Data Run of the current attribute.
+        if self.next_data_run()? {
+            return Ok(true);
+        }
+
+        // Move to the first Data Run of the next connected attribute.
+        self.next_attribute(fs)
+    }
+
     fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
     where
         T: Read + Seek,
@@ -199,25 +219,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
         let mut bytes_read = 0usize;
 
         while bytes_read < buf.len() {
-            // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
-                // We read something, so check the loop condition again if we need to read more.
-                continue;
-            }
-
-            // Move to the next Data Run of the current attribute.
-            if self.next_data_run()? {
-                // We got another Data Run of the current attribute, so read again.
-                continue;
-            }
-
-            // Move to the first Data Run of the next connected attribute.
-            if self.next_attribute(fs)? {
-                // We got another attribute, so read again.
-                continue;
-            } else {
+            match self.read_next(fs, buf, &mut bytes_read) {
+                // We read something or moved to the next Data Run, so check the loop condition again if we need to read more.
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // We have already read something and advanced, so report that.
+                // In case of a persisting error, the next call will output it.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 3a651d0..4bfcde3 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -112,6 +112,21 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     }
 
     /// Rewinds this value reader to the very beginning.
+    /// Reads from the current Data Run or moves to the next one.
+    /// Returns whether there may be more to read.
+    fn read_next<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // Read from the current Data Run if there is one.
+        if self.stream_state.read_data_run(fs, buf, bytes_read)? {
+            return Ok(true);
+        }
+
+        // Move to the next Data Run.
+        self.next_data_run()
+    }
+
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
         self.stream_state = self.stream_state.rewound();
@@ -129,19 +144,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
         let mut bytes_read = 0usize;
 
         while bytes_read < buf.len() {
-            // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
-                // We read something, so check the loop condition again if we need to read more.
-                continue;
-            }
-
-            // Move to the next Data Run.
-            if self.next_data_run()? {
-                // We got another Data Run, so read again.
-                continue;
-            } else {
+            match self.read_next(fs, buf, &mut bytes_read) {
+                // We read something or moved to the next Data Run, so check the loop condition again if we need to read more.
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // We have already read something and advanced, so report that.
+                // In case of a persisting error, the next call will output it.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From 64a1f219a9a831a07789fd1d7836a40384176216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 08/35] fix: an error while reading a connected attribute does
 not skip the rest of it

---
 .../attribute_list_non_resident.rs            | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 6d5139c..e26d8ae 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -95,8 +95,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         };
 
         // Get the state of the `NtfsDataRuns` iterator of that attribute.
-        let data_runs_state = match attribute_state.data_runs_state.take() {
-            Some(data_runs_state) => data_runs_state,
+        // It stays in place in case of an error, so that a subsequent call can try again.
+        let data_runs_state = match &attribute_state.data_runs_state {
+            Some(data_runs_state) => data_runs_state.clone(),
             None => return Ok(false),
         };
 
@@ -113,13 +114,15 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         // Do we have a next Data Run? Save that.
         let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
+            None => {
+                attribute_state.data_runs_state = None;
+                return Ok(false);
+            }
         };
         let stream_data_run = stream_data_run?;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         // We got another Data Run, so serialize the updated `NtfsDataRuns` state for the next iteration.
-        // This step is skipped when we got no Data Run, because it means we have fully iterated this iterator (and hence also the attribute and file).
         attribute_state.data_runs_state = Some(stream_data_runs.into_state());
 
         Ok(true)
@@ -131,9 +134,14 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         // Do we have another connected attribute?
-        let entry = match self.connected_entries.next(fs) {
+        // Only advance after having checked for success, so that a subsequent call can try again.
+        let mut connected_entries = self.connected_entries.clone();
+        let entry = match connected_entries.next(fs) {
             Some(entry) => entry,
-            None => return Ok(false),
+            None => {
+                self.connected_entries = connected_entries;
+                return Ok(false);
+            }
         };
 
         // Read the correspoding File Record into an `NtfsFile` and get the corresponding `NtfsAttribute`.
@@ -156,9 +164,13 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         // Get the first Data Run already here to save time and let `data_position` return something meaningful.
         let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
+            None => {
+                self.connected_entries = connected_entries;
+                return Ok(false);
+            }
         };
         let stream_data_run = stream_data_run?;
+        self.connected_entries = connected_entries;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         // Store the `NtfsFile` and serialize the `NtfsDataRuns` state for a later iteration.
-- 
2.43.0


From f5991e2da3ed1a6983182fdc42717db2ecd904e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 09/35] fix: a failed seek in a non-resident value leaves its
 position and state alone

---
 .../attribute_list_non_resident.rs            | 25 +++++++++++++++----
 src/attribute_value/non_resident.rs           | 24 ++++++++++++++----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index e26d8ae..e4f39d0 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -216,6 +216,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     {
         self.connected_entries.attribute_list_entries =
             Some(self.initial_attribute_list_entries.clone());
+        self.attribute_state = None;
         self.stream_state = self.stream_state.rewound();
         self.next_attribute(fs)?;
 
@@ -252,6 +253,24 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
     {
         let pos = self.stream_state.optimize_seek(pos, self.len())?;
 
+        // Seek on a copy, so that a failed seek leaves everything where it was.
+        let mut value = self.clone();
+        value.seek_optimized(fs, pos)?;
+        *self = value;
+
+        Ok(self.stream_position())
+    }
+
+    fn stream_position(&self) -> u64 {
+        self.stream_state.stream_position()
+    }
+}
+
+impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    fn seek_optimized<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<()>
+    where
+        T: Read + Seek,
+    {
         let mut bytes_left_to_seek = match pos {
             SeekFrom::Start(n) => {
                 self.rewind(fs)?;
@@ -296,11 +315,7 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
             _ => unreachable!(),
         }
 
-        Ok(self.stream_position())
-    }
-
-    fn stream_position(&self) -> u64 {
-        self.stream_state.stream_position()
+        Ok(())
     }
 }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 4bfcde3..f94cd73 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -165,6 +165,24 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
     {
         let pos = self.stream_state.optimize_seek(pos, self.len())?;
 
+        // Seek on a copy, so that a failed seek leaves everything where it was.
+        let mut value = self.clone();
+        value.seek_optimized(fs, pos)?;
+        *self = value;
+
+        Ok(self.stream_position())
+    }
+
+    fn stream_position(&self) -> u64 {
+        self.stream_state.stream_position()
+    }
+}
+
+impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
+    fn seek_optimized<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<()>
+    where
+        T: Read + Seek,
+    {
         let mut bytes_left_to_seek = match pos {
             SeekFrom::Start(n) => {
                 self.rewind()?;
@@ -203,11 +221,7 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             _ => unreachable!(),
         }
 
-        Ok(self.stream_position())
-    }
-
-    fn stream_position(&self) -> u64 {
-        self.stream_state.stream_position()
+        Ok(())
     }
 }
 
-- 
2.43.0


From a96760ea8dec7cf7e197323f68a106103b09e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 10/35] fix: data_position of a non-resident value is right at
 the end of a data run and of the data

---
 .../attribute_list_non_resident.rs            |  8 ++++-
 src/attribute_value/non_resident.rs           | 29 +++++++++++++++----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index e4f39d0..7206aa3 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -231,7 +231,7 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
     {
         let mut bytes_read = 0usize;
 
-        while bytes_read < buf.len() {
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             match self.read_next(fs, buf, &mut bytes_read) {
                 // We read something or moved to the next Data Run, so check the loop condition again if we need to read more.
                 Ok(true) => continue,
@@ -244,6 +244,12 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
             }
         }
 
+        // If we just read the Data Run to its end, already move to the next one, so that `data_position` is meaningful.
+        // In case of an error, the next call will output it.
+        if self.stream_state.needs_next_data_run() {
+            let _ = self.next_data_run();
+        }
+
         Ok(bytes_read)
     }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f94cd73..4656ebb 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -143,7 +143,7 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
     {
         let mut bytes_read = 0usize;
 
-        while bytes_read < buf.len() {
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             match self.read_next(fs, buf, &mut bytes_read) {
                 // We read something or moved to the next Data Run, so check the loop condition again if we need to read more.
                 Ok(true) => continue,
@@ -156,6 +156,12 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             }
         }
 
+        // If we just read the Data Run to its end, already move to the next one, so that `data_position` is meaningful.
+        // In case of an error, the next call will output it.
+        if self.stream_state.needs_next_data_run() {
+            let _ = self.next_data_run();
+        }
+
         Ok(bytes_read)
     }
 
@@ -611,15 +617,26 @@ impl StreamState {
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
     ///   * The attribute does not have a Data Run, or
-    ///   * The current Data Run is a "sparse" Data Run
+    ///   * The current Data Run is a "sparse" Data Run, or
+    ///   * The Data Run following the current one is not known yet
     pub(crate) fn data_position(&self) -> NtfsPosition {
-        if let Some(stream_data_run) = self.stream_data_run.as_ref() {
-            stream_data_run.data_position()
-        } else {
-            NtfsPosition::none()
+        match self.stream_data_run.as_ref() {
+            // A fully read Data Run says nothing about the position of the following data.
+            Some(_) if self.needs_next_data_run() => NtfsPosition::none(),
+            Some(stream_data_run) => stream_data_run.data_position(),
+            None => NtfsPosition::none(),
         }
     }
 
+    /// Returns whether the current Data Run has been read to its end, but more data follows.
+    pub(crate) fn needs_next_data_run(&self) -> bool {
+        self.stream_position < self.data_size
+            && self
+                .stream_data_run
+                .as_ref()
+                .map_or(false, |stream_data_run| stream_data_run.remaining_len() == 0)
+    }
+
     /// Returns the total (used) data size of the value, in bytes.
     pub(crate) fn data_size(&self) -> u64 {
         self.data_size
-- 
2.43.0


From 0790c7cc10e147a9a9c4e52ca44bd93144879c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 11/35] fix: an I/O error inside a binrw structure is returned
 instead of panicking

---
 src/error.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..b8ce60f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,11 +229,12 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
-        if let binrw::error::Error::Io(io_error) = error {
-            Self::Io(io_error)
-        } else {
+        match error {
+            binrw::error::Error::Io(io_error) => Self::Io(io_error),
+            // binrw wraps an error that occurs inside a derived structure (e.g. when it is truncated).
+            binrw::error::Error::Backtrace(backtrace) => Self::from(*backtrace.error),
             // We don't use any binrw attributes that result in other errors.
-            unreachable!("Got a binrw error of unexpected type: {:?}", error);
+            error => unreachable!("Got a binrw error of unexpected type: {:?}", error),
         }
     }
 }
-- 
2.43.0


From d250903a78f9c272ece53d084ffb9cf57997045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 12/35] fix: no u16 overflow for an update sequence array at
 the very end of the offset range

---
 src/record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..915acf6 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -119,9 +119,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From 6e7787c434ba28b15c73d8e6fddd23e50fe60339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 13/35] fix: refuse an attribute that is shorter than its
 resident or non-resident header

---
 src/attribute.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 6da77d9..4d9f8eb 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -66,6 +66,9 @@ impl fmt::Display for NtfsAttributeFlags {
     }
 }
 
+/// Size of all [`NtfsResidentAttributeHeader`] fields plus one reserved byte.
+const RESIDENT_ATTRIBUTE_HEADER_SIZE: usize = 24;
+
 /// On-disk structure of the extra header of an NTFS Attribute that has a resident value.
 #[repr(C, packed)]
 struct NtfsResidentAttributeHeader {
@@ -78,6 +81,9 @@ struct NtfsResidentAttributeHeader {
     indexed_flag: u8,
 }
 
+/// Size of all [`NtfsNonResidentAttributeHeader`] fields.
+const NON_RESIDENT_ATTRIBUTE_HEADER_SIZE: usize = 64;
+
 /// On-disk structure of the extra header of an NTFS Attribute that has a non-resident value.
 #[repr(C, packed)]
 struct NtfsNonResidentAttributeHeader {
@@ -439,6 +445,21 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        // The extra header must also be part of the attribute.
+        let header_size = if self.is_resident() {
+            RESIDENT_ATTRIBUTE_HEADER_SIZE
+        } else {
+            NON_RESIDENT_ATTRIBUTE_HEADER_SIZE
+        };
+
+        if attribute_length < header_size {
+            return Err(NtfsError::InvalidAttributeLength {
+                position: self.position(),
+                expected: header_size,
+                actual: attribute_length,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From ee0107af566244b137a932532cc1241c92d38117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 14/35] fix: refuse an absurd index record size instead of
 indexing out of bounds or allocating without limit

---
 src/error.rs        |  7 +++++++
 src/index_record.rs | 22 ++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index b8ce60f..a4bb81e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -96,6 +96,13 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Record at byte position {position:#x} should have a size of {actual} bytes, but a power of two between {min} and {max} is required
+    InvalidIndexRecordSize {
+        position: NtfsPosition,
+        min: u32,
+        max: u32,
+        actual: u32,
+    },
     /// The NTFS index root at byte position {position:#x} indicates that its entries start at offset {expected}, but the index root only has a size of {actual} bytes
     InvalidIndexRootEntriesOffset {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..e9f9d6a 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -65,6 +65,7 @@ impl NtfsIndexRecord {
         T: Read + Seek,
     {
         let data_position = value.data_position();
+        Self::validate_record_size(index_record_size, data_position)?;
 
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
@@ -133,6 +134,27 @@ impl NtfsIndexRecord {
         IndexNodeEntryRanges::new(self.record.into_data(), entries_range, position)
     }
 
+    fn validate_record_size(index_record_size: u32, position: NtfsPosition) -> Result<()> {
+        /// Every record is protected in blocks of 512 bytes.
+        const MIN_INDEX_RECORD_SIZE: u32 = 512;
+
+        /// The usual size is 4096 bytes. Deny anything absurd to prevent allocating too large buffers.
+        const MAX_INDEX_RECORD_SIZE: u32 = 65536;
+
+        if !(MIN_INDEX_RECORD_SIZE..=MAX_INDEX_RECORD_SIZE).contains(&index_record_size)
+            || !index_record_size.is_power_of_two()
+        {
+            return Err(NtfsError::InvalidIndexRecordSize {
+                position,
+                min: MIN_INDEX_RECORD_SIZE,
+                max: MAX_INDEX_RECORD_SIZE,
+                actual: index_record_size,
+            });
+        }
+
+        Ok(())
+    }
+
     fn validate_signature(record: &Record) -> Result<()> {
         let signature = &record.signature();
         let expected = b"INDX";
-- 
2.43.0


From d37a4e587248e81e501cbdc2e70c3ca9af659b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 15/35] fix: refuse an index root whose used size ends before
 its first entry

---
 src/structured_values/index_root.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..aeb29c3 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -80,8 +80,8 @@ impl<'f> NtfsIndexRoot<'f> {
     }
 
     fn entries_range_and_position(&self) -> (Range<usize>, NtfsPosition) {
-        let start = INDEX_ROOT_HEADER_SIZE + self.index_entries_offset() as usize;
-        let end = INDEX_ROOT_HEADER_SIZE + self.index_data_size() as usize;
+        let start = INDEX_ROOT_HEADER_SIZE.saturating_add(self.index_entries_offset() as usize);
+        let end = INDEX_ROOT_HEADER_SIZE.saturating_add(self.index_data_size() as usize);
         let position = self.position + start;
 
         (start..end, position)
@@ -145,7 +145,7 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
-        if entries_range.end > self.slice.len() {
+        if entries_range.end > self.slice.len() || entries_range.end < entries_range.start {
             return Err(NtfsError::InvalidIndexRootUsedSize {
                 position: self.position,
                 expected: entries_range.end,
-- 
2.43.0


From 3ad92ebb068dbe6693a760b61e9c1505cda65513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 16/35] fix: validate all sizes of an index record without
 overflowing

---
 src/error.rs        |  6 ++++++
 src/index_record.rs | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index a4bb81e..40dccf3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -84,6 +84,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS Index Record at byte position {position:#x} indicates that its entries start at offset {expected}, but it only uses {actual} bytes
+    InvalidIndexEntriesOffset {
+        position: NtfsPosition,
+        expected: u32,
+        actual: u32,
+    },
     /// The NTFS Index Entry at byte position {position:#x} references a data field in the range {range:?}, but the entry only has a size of {size} bytes
     InvalidIndexEntryDataRange {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index e9f9d6a..13299a3 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -175,7 +175,7 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -186,7 +186,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
@@ -195,6 +195,17 @@ impl NtfsIndexRecord {
             });
         }
 
+        // Finally, the entries must start within the used size.
+        let total_entries_offset =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_entries_offset());
+        if total_entries_offset > total_data_size {
+            return Err(NtfsError::InvalidIndexEntriesOffset {
+                position: self.record.position(),
+                expected: total_entries_offset,
+                actual: total_data_size,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From ea35387bbe8900726a2001b29edacf5e3d143002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 17/35] fix: refuse an index entry that is shorter than its
 header

---
 src/index_entry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..9610ab7 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,7 +285,9 @@ where
             });
         }
 
-        if self.index_entry_length() as usize > self.slice.len() {
+        if (self.index_entry_length() as usize) < INDEX_ENTRY_HEADER_SIZE
+            || self.index_entry_length() as usize > self.slice.len()
+        {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
                 expected: self.index_entry_length(),
-- 
2.43.0


From 9e174c30fbf1b4f26f0a48343e31f7d4d1d35767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 18/35] fix: refuse an index entry that exceeds the used size
 of its index record

---
 src/index_entry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 9610ab7..132a7e4 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -345,7 +345,10 @@ where
         // Get the current entry.
         let start = self.range.start;
         let position = self.position;
-        let entry = iter_try!(NtfsIndexEntry::<E>::new(&self.data[start..], position));
+        let entry = iter_try!(NtfsIndexEntry::<E>::new(
+            &self.data[self.range.clone()],
+            position
+        ));
         let end = start + entry.index_entry_length() as usize;
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
-- 
2.43.0


From 2c58eba4a6ad0966146d8f9a4bc6eef2e7da1cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 19/35] fix: cycles between index nodes end in an error instead
 of an endless loop

---
 src/error.rs |  2 ++
 src/index.rs | 24 +++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 40dccf3..a7c7c4d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -102,6 +102,8 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Entry at byte position {position:#x} references the subnode with Virtual Cluster Number (VCN) {vcn}, which has already been referenced by another entry
+    DuplicateIndexSubnode { position: NtfsPosition, vcn: Vcn },
     /// The NTFS Index Record at byte position {position:#x} should have a size of {actual} bytes, but a power of two between {min} and {max} is required
     InvalidIndexRecordSize {
         position: NtfsPosition,
diff --git a/src/index.rs b/src/index.rs
index 02e0ff3..470453c 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -4,6 +4,7 @@
 use core::cmp::Ordering;
 use core::marker::PhantomData;
 
+use alloc::collections::BTreeSet;
 use alloc::vec;
 use alloc::vec::Vec;
 use binrw::io::{Read, Seek};
@@ -15,7 +16,7 @@ use crate::index_entry::{
 };
 use crate::indexes::NtfsIndexEntryType;
 use crate::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
-use crate::types::NtfsPosition;
+use crate::types::{NtfsPosition, Vcn};
 
 /// Helper structure to iterate over all entries of an index or find a specific one.
 ///
@@ -106,6 +107,8 @@ where
     index: &'i NtfsIndex<'n, 'f, E>,
     inner_iterators: Vec<IndexNodeEntryRanges<E>>,
     following_entries: Vec<Option<IndexEntryRange<E>>>,
+    /// All subnodes visited so far. Every subnode has exactly one parent entry.
+    visited_subnodes: BTreeSet<Vcn>,
 }
 
 impl<'n, 'f, 'i, E> NtfsIndexEntries<'n, 'f, 'i, E>
@@ -115,11 +118,13 @@ where
     fn new(index: &'i NtfsIndex<'n, 'f, E>) -> Self {
         let inner_iterators = vec![index.index_root_entry_ranges.clone()];
         let following_entries = Vec::new();
+        let visited_subnodes = BTreeSet::new();
 
         Self {
             index,
             inner_iterators,
             following_entries,
+            visited_subnodes,
         }
     }
 
@@ -162,6 +167,13 @@ where
                 if let Some(subnode_vcn) = entry.subnode_vcn() {
                     let subnode_vcn = iter_try!(subnode_vcn);
 
+                    if self.visited_subnodes.contains(&subnode_vcn) {
+                        return Some(Err(NtfsError::DuplicateIndexSubnode {
+                            position: entry.position(),
+                            vcn: subnode_vcn,
+                        }));
+                    }
+
                     // Read the subnode from the filesystem and get an iterator for it.
                     let index_allocation_item =
                         iter_try!(self.index.index_allocation_item.as_ref().ok_or(
@@ -192,6 +204,7 @@ where
 
                     // Save this subnode's iterator and any following entry.
                     // We'll pick up the iterator through `self.inner_iterators.last_mut()` in the next loop iteration.
+                    self.visited_subnodes.insert(subnode_vcn);
                     self.inner_iterators.push(subnode_iter);
                     self.following_entries.push(following_entry);
                 } else if !is_last_entry {
@@ -263,6 +276,7 @@ where
     {
         // Always (re)start by iterating through the Index Root entry ranges.
         self.inner_iterator = self.index.index_root_entry_ranges.clone();
+        let mut visited_subnodes = BTreeSet::new();
 
         loop {
             // Get the next entry.
@@ -300,6 +314,14 @@ where
             // it comes lexicographically AFTER what we're looking for.
             // In both cases, we have to continue iterating in the subnode of this entry (if there is any).
             let subnode_vcn = iter_try!(entry.subnode_vcn()?);
+
+            if !visited_subnodes.insert(subnode_vcn) {
+                return Some(Err(NtfsError::DuplicateIndexSubnode {
+                    position: entry.position(),
+                    vcn: subnode_vcn,
+                }));
+            }
+
             let index_allocation_item = iter_try!(self.index.index_allocation_item.as_ref().ok_or(
                 NtfsError::MissingIndexAllocation {
                     position: self.index.index_root_position,
-- 
2.43.0


From 22f96f21a35da76f89bd20d7a6c875f9b0f29b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 20/35] fix: VCNs of an index with records smaller than a
 cluster are in units of 512 bytes

---
 src/structured_values/index_allocation.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/index_allocation.rs b/src/structured_values/index_allocation.rs
index a5c72d6..95bf6b8 100644
--- a/src/structured_values/index_allocation.rs
+++ b/src/structured_values/index_allocation.rs
@@ -14,6 +14,9 @@ use crate::structured_values::NtfsStructuredValue;
 use crate::traits::NtfsReadSeek;
 use crate::types::Vcn;
 
+/// Unit of the Virtual Cluster Numbers (VCNs) of an index if a cluster is larger than an Index Record, in bytes.
+const VCN_UNIT_FOR_LARGE_CLUSTERS: i64 = 512;
+
 /// Structure of an $INDEX_ALLOCATION attribute.
 ///
 /// This attribute describes the sub-nodes of a B-tree.
@@ -54,7 +57,14 @@ impl<'n, 'f> NtfsIndexAllocation<'n, 'f> {
     {
         // Seek to the byte offset of the given VCN.
         let mut value = self.value.clone();
-        let offset = vcn.offset(self.ntfs)?;
+        let offset = if self.ntfs.cluster_size() <= index_record_size {
+            vcn.offset(self.ntfs)?
+        } else {
+            // An Index Record is smaller than a cluster, so its VCN is given in units of 512 bytes.
+            vcn.value()
+                .checked_mul(VCN_UNIT_FOR_LARGE_CLUSTERS)
+                .ok_or(NtfsError::VcnTooBig { vcn })?
+        };
         value.seek(fs, SeekFrom::Current(offset))?;
 
         if value.stream_position() >= value.len() {
-- 
2.43.0


From ab6e9ee104ceb6b93e0a7b6dea05e7f91dffa01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 21/35] fix: the position of a resident value is that of its
 data and not of the attribute header

---
 src/attribute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4d9f8eb..bf02a8a 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -373,7 +373,9 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let end = start + self.resident_value_length() as usize;
         let data = &self.file.record_data()[start..end];
 
-        Ok(NtfsResidentAttributeValue::new(data, self.position()))
+        let position = self.file.position() + start;
+
+        Ok(NtfsResidentAttributeValue::new(data, position))
     }
 
     fn resident_value_length(&self) -> u32 {
-- 
2.43.0


From 164180ddd16bf3ed33f60811d72d4c17ca827c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 22/35] fix: GUIDs are formatted with leading zeros instead of
 spaces

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From 230c740f8c73a689d16b24ff0a877e2abbbb2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 23/35] fix: refuse an absurd record size given as a cluster
 count

---
 src/boot_sector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/boot_sector.rs b/src/boot_sector.rs
index 6128e43..9c741e0 100644
--- a/src/boot_sector.rs
+++ b/src/boot_sector.rs
@@ -92,6 +92,9 @@ impl BiosParameterBlock {
         /// Exponents > 12 have neither been seen and are denied to prevent allocating too large buffers.
         const MAX_EXPONENT: u32 = 12;
 
+        /// Record sizes given as a cluster count are limited for the same reason.
+        const MAX_RECORD_SIZE: u32 = 65536;
+
         const EXPONENT_RANGE: RangeInclusive<u32> = MIN_EXPONENT..=MAX_EXPONENT;
 
         let cluster_size = self.cluster_size()?;
@@ -100,6 +103,7 @@ impl BiosParameterBlock {
             // The size field denotes a cluster count.
             cluster_size
                 .checked_mul(size_info as u32)
+                .filter(|record_size| *record_size <= MAX_RECORD_SIZE)
                 .ok_or(NtfsError::InvalidRecordSizeInfo {
                     size_info,
                     cluster_size,
-- 
2.43.0


From ab3b88facb50b8a918e1da1f4dbd2c602764824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 24/35] fix: refuse an attribute list entry that exceeds its
 list instead of dropping it

---
 src/structured_values/attribute_list.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..a36dcfe 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -119,6 +119,15 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         Self { attribute_list }
     }
 
+    fn exceeding_entry_error(entry: &NtfsAttributeListEntry, remaining_length: u64) -> NtfsError {
+        NtfsError::InvalidStructuredValueSize {
+            position: entry.position(),
+            ty: NtfsAttributeType::AttributeList,
+            expected: entry.list_entry_length() as u64,
+            actual: remaining_length,
+        }
+    }
+
     /// See [`Iterator::next`].
     pub fn next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeListEntry>>
     where
@@ -147,6 +156,11 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut value_attached, position));
 
         // Advance our iterator to the next entry.
+        let remaining_length = value.len() - value.stream_position();
+        if entry.list_entry_length() as u64 > remaining_length {
+            return Some(Err(Self::exceeding_entry_error(&entry, remaining_length)));
+        }
+
         iter_try!(value.seek(fs, SeekFrom::Current(entry.list_entry_length() as i64)));
 
         Some(Ok(entry))
@@ -166,7 +180,14 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
 
         // Advance our iterator to the next entry.
         let bytes_to_advance = entry.list_entry_length() as usize;
-        *slice = slice.get(bytes_to_advance..)?;
+        if bytes_to_advance > slice.len() {
+            return Some(Err(Self::exceeding_entry_error(
+                &entry,
+                slice.len() as u64,
+            )));
+        }
+
+        *slice = &slice[bytes_to_advance..];
         *position += bytes_to_advance;
         Some(Ok(entry))
     }
-- 
2.43.0


From 1124229f67902b8070ac452e8892ff2174b7ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 25/35] fix: record numbers beyond the end of the MFT are
 refused

---
 src/ntfs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ntfs.rs b/src/ntfs.rs
index e560032..59fd8f5 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -100,6 +100,12 @@ impl Ntfs {
             mft.find_resident_attribute(NtfsAttributeType::Data, None, None)?;
         let mut mft_data_value = mft_data_attribute.value(fs)?;
 
+        // Record numbers beyond the end of the MFT must not yield stale records of its preallocated clusters.
+        let end = offset.checked_add(self.file_record_size as u64);
+        if !matches!(end, Some(end) if end <= mft_data_value.len()) {
+            return Err(NtfsError::InvalidFileRecordNumber { file_record_number });
+        }
+
         mft_data_value.seek(fs, SeekFrom::Start(offset))?;
         let position = mft_data_value
             .data_position()
-- 
2.43.0


From 6d5b3fc389ed3bccb6bdcb9ace699c69fae201a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 26/35] fix: file records that cross the border of two MFT data
 runs are read from both

---
 src/file.rs | 10 ++++++++++
 src/ntfs.rs |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index b0bc5fc..ab25e8d 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,6 +6,7 @@ use core::fmt;
 use core::num::NonZeroU64;
 
 use alloc::vec;
+use alloc::vec::Vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use bitflags::bitflags;
 use byteorder::{ByteOrder, LittleEndian};
@@ -144,6 +145,15 @@ impl<'n> NtfsFile<'n> {
         fs.seek(SeekFrom::Start(position.get()))?;
         fs.read_exact(&mut data)?;
 
+        Self::from_record_data(ntfs, data, position, file_record_number)
+    }
+
+    pub(crate) fn from_record_data(
+        ntfs: &'n Ntfs,
+        data: Vec<u8>,
+        position: NonZeroU64,
+        file_record_number: u64,
+    ) -> Result<Self> {
         let mut record = Record::new(data, position.into());
         Self::validate_signature(&record)?;
         record.fixup()?;
diff --git a/src/ntfs.rs b/src/ntfs.rs
index 59fd8f5..9f7fd02 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -1,6 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
+use alloc::vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use binrw::BinReaderExt;
 
@@ -112,7 +113,11 @@ impl Ntfs {
             .value()
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
-        NtfsFile::new(self, fs, position, file_record_number)
+        // A record may cross the border of two data runs, so let the value reader collect its data.
+        let mut data = vec![0; self.file_record_size as usize];
+        mft_data_value.read_exact(fs, &mut data)?;
+
+        NtfsFile::from_record_data(self, data, position, file_record_number)
     }
 
     /// Returns the size of a File Record of this NTFS filesystem, in bytes.
-- 
2.43.0


From e8c0711f1eb877140af000416a589a7eb00402cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 27/35] fix: connected attributes are identified by their VCN
 and not by their instance number

---
 src/attribute.rs                              | 16 ++++---------
 .../attribute_list_non_resident.rs            | 23 +++++++++++--------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index bf02a8a..2f4c4ef 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -539,7 +539,6 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.file.ntfs(),
                 fs,
                 list_entries.clone(),
-                self.instance(),
                 self.ty()?,
                 data_size,
                 self.non_resident_value_initialized_size(),
@@ -578,7 +577,6 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    list_skip_info: Option<(u16, NtfsAttributeType)>,
 }
 
 impl<'n, 'f> NtfsAttributes<'n, 'f> {
@@ -586,7 +584,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
             list_entries: None,
-            list_skip_info: None,
         }
     }
 
@@ -620,9 +617,7 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                         Some(Err(e)) => return Some(Err(e)),
                         None => break,
                     };
-                    let entry_instance = entry.instance();
                     let entry_record_number = entry.base_file_reference().file_record_number();
-                    let entry_ty = iter_try!(entry.ty());
 
                     // Ignore all Attribute List entries that just repeat attributes of the raw iterator.
                     if entry_record_number == self.raw_iter.file.file_record_number() {
@@ -630,15 +625,13 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     }
 
                     // Ignore all Attribute List entries that are connected attributes of a previous one.
-                    if let Some((skip_instance, skip_ty)) = self.list_skip_info {
-                        if entry_instance == skip_instance && entry_ty == skip_ty {
-                            continue;
-                        }
+                    // Only these don't begin at the first VCN of the value.
+                    // Note that instance numbers are no help here, as they are only unique within a File Record.
+                    if entry.lowest_vcn() != Vcn::from(0) {
+                        continue;
                     }
 
                     // We found an attribute that we want to return.
-                    self.list_skip_info = None;
-
                     let ntfs = self.raw_iter.file.ntfs();
                     let entry_file = iter_try!(entry.to_file(ntfs, fs));
                     let entry_attribute = iter_try!(entry.to_attribute(&entry_file));
@@ -647,7 +640,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     let mut list_entries = None;
                     if !entry_attribute.is_resident() {
                         list_entries = Some(attribute_list_entries_clone);
-                        self.list_skip_info = Some((entry_instance, entry_ty));
                     }
 
                     let item = NtfsAttributeItem {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 7206aa3..746152d 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -15,7 +15,7 @@ use crate::file::NtfsFile;
 use crate::ntfs::Ntfs;
 use crate::structured_values::{NtfsAttributeListEntries, NtfsAttributeListEntry};
 use crate::traits::NtfsReadSeek;
-use crate::types::NtfsPosition;
+use crate::types::{NtfsPosition, Vcn};
 
 /// Reader for a non-resident attribute value that is part of an Attribute List.
 ///
@@ -43,7 +43,6 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         ntfs: &'n Ntfs,
         fs: &mut T,
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
         ty: NtfsAttributeType,
         data_size: u64,
         initialized_size: u64,
@@ -52,7 +51,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         let connected_entries =
-            AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
+            AttributeListConnectedEntries::new(attribute_list_entries.clone(), ty);
         let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
@@ -214,8 +213,10 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
+        self.connected_entries = AttributeListConnectedEntries::new(
+            self.initial_attribute_list_entries.clone(),
+            self.connected_entries.ty,
+        );
         self.attribute_state = None;
         self.stream_state = self.stream_state.rewound();
         self.next_attribute(fs)?;
@@ -328,20 +329,19 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
 #[derive(Clone, Debug)]
 struct AttributeListConnectedEntries<'n, 'f> {
     attribute_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    instance: u16,
     ty: NtfsAttributeType,
+    is_first: bool,
 }
 
 impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
     fn new(
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
         ty: NtfsAttributeType,
     ) -> Self {
         Self {
             attribute_list_entries: Some(attribute_list_entries),
-            instance,
             ty,
+            is_first: true,
         }
     }
 
@@ -351,8 +351,13 @@ impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
     {
         let attribute_list_entries = self.attribute_list_entries.as_mut()?;
 
+        // The first entry is followed by all entries that continue its value at a later VCN.
+        // Their instance numbers are unrelated, as these are only unique within a File Record.
         let entry = iter_try!(attribute_list_entries.next(fs)?);
-        if entry.instance() == self.instance && iter_try!(entry.ty()) == self.ty {
+        if iter_try!(entry.ty()) == self.ty
+            && (self.is_first || entry.lowest_vcn() != Vcn::from(0))
+        {
+            self.is_first = false;
             Some(Ok(entry))
         } else {
             self.attribute_list_entries = None;
-- 
2.43.0


From d6b9bf8da6ce7b06cb9472669afff84ff820503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 28/35] fix: an attribute in the base record is continued by
 its connected attributes

---
 src/attribute.rs | 64 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 2f4c4ef..53d314e 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -252,6 +252,12 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         is_non_resident == 0
     }
 
+    fn lowest_vcn(&self) -> Vcn {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, lowest_vcn);
+        Vcn::from(LittleEndian::read_i64(&self.file.record_data()[start..]))
+    }
+
     /// Gets the name of this NTFS Attribute (if any) and returns it wrapped in a [`U16StrLe`].
     ///
     /// Note that most NTFS attributes have no name and are distinguished by their types.
@@ -577,6 +583,8 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
+    /// An untouched copy of `list_entries` to look up the attributes of the raw iterator.
+    initial_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
 }
 
 impl<'n, 'f> NtfsAttributes<'n, 'f> {
@@ -584,6 +592,50 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
             list_entries: None,
+            initial_list_entries: None,
+        }
+    }
+
+    /// Returns an iterator over the Attribute List that begins with the entry of the given raw attribute
+    /// if that attribute is continued by connected attributes.
+    fn connected_list_entries<T>(
+        &self,
+        fs: &mut T,
+        attribute: &NtfsAttribute<'n, 'f>,
+    ) -> Result<Option<NtfsAttributeListEntries<'n, 'f>>>
+    where
+        T: Read + Seek,
+    {
+        let mut list_entries = match &self.initial_list_entries {
+            Some(list_entries) if !attribute.is_resident() => list_entries.clone(),
+            _ => return Ok(None),
+        };
+        let file_record_number = self.raw_iter.file.file_record_number();
+
+        loop {
+            let list_entries_clone = list_entries.clone();
+
+            let entry = match list_entries.next(fs) {
+                Some(entry) => entry?,
+                None => return Ok(None),
+            };
+
+            if entry.base_file_reference().file_record_number() != file_record_number
+                || entry.instance() != attribute.instance()
+                || entry.ty()? != attribute.ty()?
+            {
+                continue;
+            }
+
+            return match list_entries.next(fs) {
+                Some(next_entry) => {
+                    let next_entry = next_entry?;
+                    let is_connected = next_entry.lowest_vcn() != Vcn::from(0)
+                        && next_entry.ty()? == attribute.ty()?;
+                    Ok(is_connected.then(|| list_entries_clone))
+                }
+                None => Ok(None),
+            };
         }
     }
 
@@ -657,12 +709,22 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                 let attribute_list =
                     iter_try!(attribute.structured_value::<T, NtfsAttributeList>(fs));
                 self.list_entries = Some(attribute_list.entries());
+                self.initial_list_entries = self.list_entries.clone();
             } else {
+                // Ignore all attributes that are connected attributes of a previous one.
+                if self.initial_list_entries.is_some()
+                    && !attribute.is_resident()
+                    && attribute.lowest_vcn() != Vcn::from(0)
+                {
+                    continue;
+                }
+
+                let list_entries = iter_try!(self.connected_list_entries(fs, &attribute));
                 let item = NtfsAttributeItem {
                     attribute_file: self.raw_iter.file,
                     attribute_value_file: None,
                     attribute_offset: attribute.offset(),
-                    list_entries: None,
+                    list_entries,
                 };
                 return Some(Ok(item));
             }
-- 
2.43.0


From b6593a95c4bc5d0a0ec540548e39103d9fdc2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 29/35] fix: system times between the Windows epoch and the
 Unix epoch are converted

---
 src/time.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index f86dd87..53af928 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -68,7 +68,19 @@ impl TryFrom<SystemTime> for NtfsTime {
     type Error = SystemTimeError;
 
     fn try_from(st: SystemTime) -> Result<Self, Self::Error> {
-        let duration_since_unix_epoch = st.duration_since(SystemTime::UNIX_EPOCH)?;
+        // The Windows epoch is earlier than the Unix epoch.
+        let duration_since_unix_epoch = match st.duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(duration) => duration,
+            Err(e) => {
+                let intervals_until_unix_epoch = e.duration().as_nanos() / 100;
+
+                return u64::try_from(intervals_until_unix_epoch)
+                    .ok()
+                    .and_then(|intervals| EPOCH_DIFFERENCE_IN_INTERVALS.checked_sub(intervals))
+                    .map(Self)
+                    .ok_or(e);
+            }
+        };
         let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
             + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
         let intervals_since_windows_epoch =
-- 
2.43.0


From 66afbc016b9ff3a535bc3f57a68059be6fdc6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 30/35] fix: system times too late for an NT timestamp are
 refused instead of overflowing

---
 src/time.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 53af928..36c6a11 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -14,10 +14,6 @@ use std::time::{SystemTime, SystemTimeError};
 #[cfg(any(feature = "time", feature = "std"))]
 const EPOCH_DIFFERENCE_IN_INTERVALS: u64 = 116_444_736_000_000_000;
 
-/// Number of 100-nanosecond intervals in a second.
-#[cfg(any(feature = "time", feature = "std"))]
-const INTERVALS_PER_SECOND: u64 = 10_000_000;
-
 /// An NTFS timestamp, used for expressing file times.
 ///
 /// NTFS (and the Windows NT line of operating systems) represent time as an unsigned 64-bit integer
@@ -81,12 +77,16 @@ impl TryFrom<SystemTime> for NtfsTime {
                     .ok_or(e);
             }
         };
-        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
-            + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
+        let intervals_since_unix_epoch = duration_since_unix_epoch.as_nanos() / 100;
         let intervals_since_windows_epoch =
-            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS;
-
-        Ok(Self(intervals_since_windows_epoch))
+            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS as u128;
+
+        match u64::try_from(intervals_since_windows_epoch) {
+            Ok(nt_timestamp) => Ok(Self(nt_timestamp)),
+            // This time is too late for an `NtfsTime`.
+            // It is certainly later than the Unix epoch, so this is a way to get the `SystemTimeError`.
+            Err(_) => Err(SystemTime::UNIX_EPOCH.duration_since(st).unwrap_err()),
+        }
     }
 }
 
-- 
2.43.0


From 1fdd473cc0c88194ebd3edddfeb4b9e371c1ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 31/35] fix: put the doc comments of rewind back where they
 belong

---
 src/attribute_value/attribute_list_non_resident.rs | 2 +-
 src/attribute_value/non_resident.rs                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 746152d..b286476 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -188,7 +188,6 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
     /// Reads from the current Data Run or moves to the next one (possibly of the next connected attribute).
     /// Returns whether there may be more to read.
     fn read_next<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
@@ -209,6 +208,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.next_attribute(fs)
     }
 
+    /// Rewinds this value reader to the very beginning.
     fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
     where
         T: Read + Seek,
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 4656ebb..468a7a4 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -111,7 +111,6 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
     /// Reads from the current Data Run or moves to the next one.
     /// Returns whether there may be more to read.
     fn read_next<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
@@ -127,6 +126,7 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         self.next_data_run()
     }
 
+    /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
         self.stream_state = self.stream_state.rewound();
-- 
2.43.0


From 31975fc073a436e31f8c9741110e5f79f7a323b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 32/35] fix: a too short volume information is reported as such
 and not as standard information

---
 src/structured_values/volume_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structured_values/volume_information.rs b/src/structured_values/volume_information.rs
index 07e42ff..cfc0da9 100644
--- a/src/structured_values/volume_information.rs
+++ b/src/structured_values/volume_information.rs
@@ -71,7 +71,7 @@ impl NtfsVolumeInformation {
         if value_length < VOLUME_INFORMATION_SIZE as u64 {
             return Err(NtfsError::InvalidStructuredValueSize {
                 position,
-                ty: NtfsAttributeType::StandardInformation,
+                ty: NtfsAttributeType::VolumeInformation,
                 expected: VOLUME_INFORMATION_SIZE as u64,
                 actual: value_length,
             });
-- 
2.43.0


From f164a29f2501210ff951d4edaccb9863b2977952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 33/35] fix: refuse a file record whose first attribute starts
 beyond its used size

---
 src/error.rs | 6 ++++++
 src/file.rs  | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index a7c7c4d..a4c75c1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -64,6 +64,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS File Record at byte position {position:#x} indicates that its first attribute starts at offset {expected}, but it only uses {actual} bytes
+    InvalidFileFirstAttributeOffset {
+        position: NtfsPosition,
+        expected: u16,
+        actual: u32,
+    },
     /// The requested NTFS File Record Number {file_record_number} is invalid
     InvalidFileRecordNumber { file_record_number: u64 },
     /// The NTFS File Record at byte position {position:#x} should have signature {expected:?}, but it has signature {actual:?}
diff --git a/src/file.rs b/src/file.rs
index ab25e8d..1a56d99 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -548,6 +548,15 @@ impl<'n> NtfsFile<'n> {
             });
         }
 
+        // The attributes must start within the used size.
+        if u32::from(self.first_attribute_offset()) > self.data_size() {
+            return Err(NtfsError::InvalidFileFirstAttributeOffset {
+                position: self.record.position(),
+                expected: self.first_attribute_offset(),
+                actual: self.data_size(),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 0d76f92a1ed8918741059c0f6bedc48bd91eafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 34/35] fix: report a run list offset beyond its attribute at
 that attribute

---
 src/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 53d314e..a7ab4e4 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -311,7 +311,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let position = self.file.position() + start;
         let data = &self.file.record_data().get(start..end).ok_or(
             NtfsError::InvalidNonResidentValueDataRange {
-                position,
+                position: self.position(),
                 range: start..end,
                 size: self.file.record_data().len(),
             },
-- 
2.43.0


From 850e4da396293297f1fa1d6a32ead1e97c56b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 35/35] fix: report a wrong boot signature at its position on
 disk

---
 src/boot_sector.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/boot_sector.rs b/src/boot_sector.rs
index 9c741e0..13a73e0 100644
--- a/src/boot_sector.rs
+++ b/src/boot_sector.rs
@@ -4,7 +4,6 @@
 use core::ops::RangeInclusive;
 
 use binrw::BinRead;
-use memoffset::offset_of;
 
 use crate::error::{NtfsError, Result};
 use crate::types::{Lcn, NtfsPosition};
@@ -191,6 +190,11 @@ impl BiosParameterBlock {
     }
 }
 
+/// Byte position of the signature at the end of the boot sector.
+///
+/// This is a property of the on-disk format and not of the in-memory layout of [`BootSector`].
+const SIGNATURE_POSITION: u64 = 510;
+
 #[allow(unused)]
 #[derive(BinRead)]
 pub(crate) struct BootSector {
@@ -211,7 +215,7 @@ impl BootSector {
         let expected_signature = &[0x55, 0xAA];
         if &self.signature != expected_signature {
             return Err(NtfsError::InvalidTwoByteSignature {
-                position: NtfsPosition::new(offset_of!(BootSector, signature) as u64),
+                position: NtfsPosition::new(SIGNATURE_POSITION),
                 expected: expected_signature,
                 actual: self.signature,
             });
-- 
2.43.0

