From 66ba87be45ee7ccb89b4d9c6e8346831353c798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 1/9] fix: fill buffers despite short and interrupted reads

A single call to Read::read may return fewer bytes than requested or fail with
ErrorKind::Interrupted. The signature buffer and the PDF, SQLite 3 and XML
readers now read until their buffer is full or the stream ends.
---
 src/lib.rs     |  4 +++-
 src/readers.rs | 23 +++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..2ab72fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -226,6 +226,8 @@ use std::{
     path::Path,
 };
 
+use readers::ReadData;
+
 pub use formats::FileFormat;
 
 impl FileFormat {
@@ -292,7 +294,7 @@ impl FileFormat {
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
         let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..56fdb3d 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -631,7 +631,7 @@ impl crate::FileFormat {
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader.read_up_to(&mut buf[OVERLAP_SIZE..])?;
             if nread == 0 {
                 break;
             }
@@ -734,7 +734,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
         if buf[..nread].holds(SKETCH_MARKER) {
@@ -784,7 +784,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
         let buf = &buf[..nread];
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
@@ -1100,7 +1100,22 @@ impl crate::FileFormat {
 
 /// A trait for convenient data reading.
 #[allow(dead_code)]
-trait ReadData: Read {
+pub(crate) trait ReadData: Read {
+    /// Reads until the specified buffer is full or the end of the stream is reached, and returns
+    /// the number of bytes read.
+    fn read_up_to(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut nread = 0;
+        while nread < buf.len() {
+            match self.read(&mut buf[nread..]) {
+                Ok(0) => break,
+                Ok(count) => nread += count,
+                Err(error) if error.kind() == ErrorKind::Interrupted => {}
+                Err(error) => return Err(error),
+            }
+        }
+        Ok(nread)
+    }
+
     /// Reads a specified number of bytes into a `Vec<u8>`.
     #[inline]
     fn read_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
-- 
2.43.0


From c431772816bf09e18a503548b405dc10e5b1d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 2/9] fix: report stream failures met by the specialised
 readers

An input/output error during the second stage of the detection was turned into
the plain text or arbitrary binary data fallback. Only errors that describe the
content (invalid data, invalid input, unexpected end of file) now lead to the
fallback; all others are returned to the caller.
---
 src/lib.rs     | 14 +++++++++-----
 src/readers.rs | 18 +++++++++++++++---
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ab72fe..c946eaf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -297,14 +297,18 @@ impl FileFormat {
         let nread = reader.read_up_to(&mut buf)?;
 
         // Determines file format.
-        Ok(if nread == 0 {
-            Self::Empty
+        if nread == 0 {
+            Ok(Self::Empty)
         } else if let Some(fmt) = Self::from_signature(&buf[..nread]) {
-            Self::from_fmt_reader(fmt, &mut reader)
-                .unwrap_or_else(|_| Self::from_generic_reader(&mut reader))
+            match Self::from_fmt_reader(fmt, &mut reader) {
+                Err(error) if readers::is_content_error(&error) => {
+                    Self::from_generic_reader(&mut reader)
+                }
+                result => result,
+            }
         } else {
             Self::from_generic_reader(&mut reader)
-        })
+        }
     }
 }
 
diff --git a/src/readers.rs b/src/readers.rs
index 56fdb3d..09c18b2 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -40,14 +40,17 @@ impl crate::FileFormat {
     #[inline]
     pub(crate) fn from_generic_reader<R: Read + Seek>(
         #[allow(unused_variables)] reader: R,
-    ) -> Self {
+    ) -> Result<Self> {
         #[cfg(feature = "reader-txt")]
         {
-            Self::from_txt_reader(reader).unwrap_or_default()
+            match Self::from_txt_reader(reader) {
+                Err(error) if is_content_error(&error) => Ok(Self::default()),
+                result => result,
+            }
         }
         #[cfg(not(feature = "reader-txt"))]
         {
-            Self::default()
+            Ok(Self::default())
         }
     }
 
@@ -1098,6 +1101,15 @@ impl crate::FileFormat {
     }
 }
 
+/// Returns `true` if the error describes the content of the stream rather than a failure to access
+/// it.
+pub(crate) fn is_content_error(error: &Error) -> bool {
+    matches!(
+        error.kind(),
+        ErrorKind::InvalidData | ErrorKind::InvalidInput | ErrorKind::UnexpectedEof
+    )
+}
+
 /// A trait for convenient data reading.
 #[allow(dead_code)]
 pub(crate) trait ReadData: Read {
-- 
2.43.0


From 701e30eea97ce26bfe4151ef9d1d99f6bd748da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 3/9] fix: do not overflow on extreme ASF, MP4 and ZIP64 sizes

---
 src/readers.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 09c18b2..65549cd 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -115,7 +115,7 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(40)))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
@@ -150,11 +150,13 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
+                    reader.seek(SeekFrom::Start(
+                        offset.saturating_add(size).saturating_sub(26),
+                    ))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(24)))?;
                 }
             }
         }
@@ -585,11 +587,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(20)))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;
                 }
             }
 
@@ -912,7 +914,7 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            reader.seek(SeekFrom::Start(eocd64_offset.saturating_add(32)))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From f5eadfd78d2f0b3b3b75eae9dc039a8ac46c0983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 4/9] fix: do not overflow on a ZIP record at the end of the
 offset range

---
 src/readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 65549cd..f9619d7 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -925,7 +925,7 @@ impl crate::FileFormat {
             (number_of_entries as usize, socd_offset)
         } else {
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd_offset + 10))?;
+            reader.seek(SeekFrom::Start(eocd_offset.saturating_add(10)))?;
             let number_of_entries = reader.read_u16_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From ca1000515db8352f9849c65d8546cef829eac1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 5/9] fix: limit the number of ID3v2 tags processed by the
 reader

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index f9619d7..21779da 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -470,9 +470,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 64;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let buf = reader.read_bytes(10)?;
-- 
2.43.0


From 76cc3679c48d593cf6d2875054615ba69f400e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 6/9] fix: limit the size of the ZIP media type read into
 memory

---
 src/readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 21779da..89a9ab2 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -865,6 +865,9 @@ impl crate::FileFormat {
         // Maximum number of entries that can be processed by the reader.
         const ENTRY_LIMIT: usize = 1024;
 
+        // Maximum size of a media type that can be processed by the reader.
+        const MEDIA_TYPE_LIMIT: usize = 128;
+
         // Signature of the ZIP64 end of central directory locator.
         const EOCD64_LOCATOR_SIGNATURE: &[u8] = b"PK\x06\x07";
 
@@ -1003,7 +1006,8 @@ impl crate::FileFormat {
                     ))?;
 
                     // Reads the data.
-                    let data = reader.read_string(compressed_size as usize)?;
+                    let size = std::cmp::min(MEDIA_TYPE_LIMIT, compressed_size as usize);
+                    let data = reader.read_string(size)?;
 
                     // Checks the trimmed data.
                     return Ok(match data.trim() {
-- 
2.43.0


From cc2853c0c3603781ecc167f4b8dd3092bcf42601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 7/9] fix: treat offsets a file system cannot represent as the
 end of the stream

Skipping a structure whose declared size leads beyond the largest offset of the
operating system or file system failed on a file, but not on the same bytes in
memory, so from_file and from_bytes disagreed.
---
 src/readers.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 89a9ab2..619664c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -115,7 +115,7 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(40)))?;
+                    reader.seek_to(SeekFrom::Current((size as i64).saturating_sub(40)))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
@@ -150,13 +150,13 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(
+                    reader.seek_to(SeekFrom::Start(
                         offset.saturating_add(size).saturating_sub(26),
                     ))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(24)))?;
+                    reader.seek_to(SeekFrom::Current((size as i64).saturating_sub(24)))?;
                 }
             }
         }
@@ -374,7 +374,7 @@ impl crate::FileFormat {
 
                     // Skips the remaining size.
                     let remaining_size = size.saturating_sub(DOC_TYPE_LIMIT as u64);
-                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
+                    reader.seek_to(SeekFrom::Current(remaining_size as i64))?;
                 }
                 CODEC_ID_ELEMENT_ID => {
                     // Reads the Codec ID.
@@ -392,7 +392,7 @@ impl crate::FileFormat {
 
                     // Skips the remaining size.
                     let remaining_size = size.saturating_sub(CODEC_ID_LIMIT as u64);
-                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
+                    reader.seek_to(SeekFrom::Current(remaining_size as i64))?;
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
@@ -406,7 +406,7 @@ impl crate::FileFormat {
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
                     // Seeks to the next element.
-                    reader.seek(SeekFrom::Current(size as i64))?;
+                    reader.seek_to(SeekFrom::Current(size as i64))?;
                 }
             }
 
@@ -590,11 +590,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(20)))?;
+                    reader.seek_to(SeekFrom::Current((size as i64).saturating_sub(20)))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;
+                    reader.seek_to(SeekFrom::Current((size as i64).saturating_sub(8)))?;
                 }
             }
 
@@ -718,7 +718,7 @@ impl crate::FileFormat {
             }
 
             // Seeks to the next chunk.
-            reader.seek(SeekFrom::Current(chunk_size as i64 - 8))?;
+            reader.seek_to(SeekFrom::Current(chunk_size as i64 - 8))?;
         }
 
         // Determines the file format based on the identified streams.
@@ -943,7 +943,7 @@ impl crate::FileFormat {
         };
 
         // Seeks to the start of central directory.
-        reader.seek(SeekFrom::Start(socd_offset))?;
+        reader.seek_to(SeekFrom::Start(socd_offset))?;
 
         // Sets the default value.
         let mut fmt = Self::Zip;
@@ -1220,6 +1220,28 @@ pub(crate) trait ReadData: Read {
 /// additional methods provided by the `ReadData` trait.
 impl<R: Read> ReadData for R {}
 
+/// A trait for convenient seeking.
+#[allow(dead_code)]
+trait SeekData: Seek {
+    /// Seeks to the specified position, or to the end of the stream if the position lies beyond the
+    /// largest offset supported by the stream.
+    fn seek_to(&mut self, pos: SeekFrom) -> Result<u64> {
+        match self.seek(pos) {
+            Err(error)
+                if error.kind() == ErrorKind::InvalidInput
+                    && !matches!(pos, SeekFrom::Current(..0) | SeekFrom::End(..0)) =>
+            {
+                self.seek(SeekFrom::End(0))
+            }
+            result => result,
+        }
+    }
+}
+
+/// Allows any type `S` that implements the `Seek` trait to automatically benefit from the
+/// additional methods provided by the `SeekData` trait.
+impl<S: Seek> SeekData for S {}
+
 /// A trait for finding a byte pattern within data.
 #[allow(dead_code)]
 trait FindBytes: AsRef<[u8]> {
-- 
2.43.0


From 164e5480b0b47f0bca5313cab70b6d301a317931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 8/9] fix: account for the extended header of 64-bit MP4 boxes

---
 src/readers.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 619664c..b9c6275 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -566,11 +566,11 @@ impl crate::FileFormat {
             // Reads the box type.
             let box_type = reader.read_bytes(4)?;
 
-            // Handles the extended box size.
-            let size = if size == 1 {
-                reader.read_u64_be()?
+            // Handles the extended box size, which follows the box type.
+            let (size, header_size) = if size == 1 {
+                (reader.read_u64_be()?, 16)
             } else {
-                size as u64
+                (size as u64, 8)
             };
 
             // Checks the box type.
@@ -590,11 +590,13 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek_to(SeekFrom::Current((size as i64).saturating_sub(20)))?;
+                    reader.seek_to(SeekFrom::Current(
+                        (size as i64).saturating_sub(header_size + 12),
+                    ))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek_to(SeekFrom::Current((size as i64).saturating_sub(8)))?;
+                    reader.seek_to(SeekFrom::Current((size as i64).saturating_sub(header_size)))?;
                 }
             }
 
-- 
2.43.0


From d272ca83c41df676c8c833c63333bdb9b33200d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:37 +0000
Subject: [PATCH 9/9] fix: lengths, offsets and counts beyond 32 bits on 32-bit
 platforms

On targets with 32-bit pointers the ZIP reader truncated the length of the
stream, the offset of the end of central directory record and the number of
entries, and the EBML reader the size of an element, before limiting them.
---
 src/readers.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index b9c6275..2e3de10 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -363,7 +363,7 @@ impl crate::FileFormat {
                 DOC_TYPE_ELEMENT_ID => {
                     // Reads the DocType.
                     let doc_type =
-                        reader.read_bytes(std::cmp::min(DOC_TYPE_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(DOC_TYPE_LIMIT as u64, size) as usize)?;
 
                     // Checks the DocType.
                     if doc_type.starts_with(b"webm") {
@@ -379,7 +379,7 @@ impl crate::FileFormat {
                 CODEC_ID_ELEMENT_ID => {
                     // Reads the Codec ID.
                     let codec_id =
-                        reader.read_bytes(std::cmp::min(CODEC_ID_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(CODEC_ID_LIMIT as u64, size) as usize)?;
 
                     // Checks the Codec ID.
                     if codec_id.starts_with(b"A_") {
@@ -895,14 +895,14 @@ impl crate::FileFormat {
         let offset = len.saturating_sub(EOCD_MAX_SIZE as u64);
         reader.seek(SeekFrom::Start(offset))?;
         let buf_index = reader
-            .read_bytes((len as usize).clamp(EOCD_MIN_SIZE, EOCD_MAX_SIZE))?
+            .read_bytes(len.clamp(EOCD_MIN_SIZE as u64, EOCD_MAX_SIZE as u64) as usize)?
             .rfind(EOCD_SIGNATURE)
             .ok_or_else(|| Error::new(ErrorKind::InvalidData, "cannot find the EOCD"))?;
         let eocd_offset = offset + buf_index as u64;
 
         // Checks for ZIP64 end of central directory locator.
         let mut zip64 = false;
-        if eocd_offset as usize >= EOCD64_LOCATOR_SIZE {
+        if eocd_offset >= EOCD64_LOCATOR_SIZE as u64 {
             // Seeks to the ZIP64 end of central directory locator.
             reader.seek(SeekFrom::Start(eocd_offset - EOCD64_LOCATOR_SIZE as u64))?;
 
@@ -930,7 +930,7 @@ impl crate::FileFormat {
             let socd_offset = reader.read_u64_le()?;
 
             // Returns the result.
-            (number_of_entries as usize, socd_offset)
+            (number_of_entries, socd_offset)
         } else {
             // Reads the number of entries.
             reader.seek(SeekFrom::Start(eocd_offset.saturating_add(10)))?;
@@ -941,7 +941,7 @@ impl crate::FileFormat {
             let socd_offset = reader.read_u32_le()?;
 
             // Returns the result.
-            (number_of_entries as usize, socd_offset as u64)
+            (number_of_entries as u64, socd_offset as u64)
         };
 
         // Seeks to the start of central directory.
@@ -951,7 +951,7 @@ impl crate::FileFormat {
         let mut fmt = Self::Zip;
 
         // Browses central directory headers.
-        for _ in 0..std::cmp::min(ENTRY_LIMIT, number_of_entries) {
+        for _ in 0..std::cmp::min(ENTRY_LIMIT as u64, number_of_entries) {
             // Reads the compressed size.
             reader.seek(SeekFrom::Current(20))?;
             let compressed_size = reader.read_u32_le()?;
-- 
2.43.0

