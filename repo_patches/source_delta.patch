From a979118ecb53556bb582947617316a47ad652bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 01/17] fix: do not swap the sizes of streamed entries when
 zip64 is disabled

---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From 2075bed509cedf91b20b2ddafd585aaadec53392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 02/17] fix: refuse an archive comment longer than its length
 field can hold

---
 src/base/write/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..e89b86b 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -71,7 +71,7 @@ pub use entry_whole::crc32;
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
 use crate::entry::ZipEntry;
-use crate::error::Result;
+use crate::error::{Result, ZipError};
 use crate::spec::extra_field::ExtraFieldAsBytes;
 use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
@@ -224,6 +224,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             cd_offset as u32
         };
 
+        let file_comm_length = match &self.comment_opt {
+            Some(comment) => comment.len().try_into().map_err(|_| ZipError::CommentTooLarge)?,
+            None => 0,
+        };
+
         // Add the zip64 EOCDR and EOCDL if we are in zip64 mode.
         if self.is_zip64 {
             let eocdr_offset = self.writer.offset();
@@ -258,7 +263,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From 483f811a151107cad7a38cca541392cbba0be8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 03/17] fix: do not allocate for an entry count the archive
 merely claims

---
 src/base/read/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..05e7c5b 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -85,8 +85,8 @@ pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Re
 where
     R: AsyncRead + Unpin,
 {
-    let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    let num_of_entries: usize = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
+    let mut entries = Vec::new();
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From aa038a4b5330bbb8a5c4f3b0cdb6b681329c9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 04/17] fix: verify the zip64 end of central directory
 signature before trusting the record

---
 src/base/read/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 05e7c5b..33e0f75 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,9 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
+use crate::spec::consts::{
+    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE,
+};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
@@ -58,7 +60,8 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
+                    reader.seek(SeekFrom::Start(locator.relative_offset)).await?;
+                    crate::utils::assert_signature(&mut reader, ZIP64_EOCDR_SIGNATURE).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From 5ea97228eddb7adc4d4e418c6bc27b7dbd8db59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 05/17] fix: do not list an entry whose write was refused for
 exceeding the file count

---
 src/base/write/entry_stream.rs | 4 ++--
 src/base/write/entry_whole.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..cf0ae49 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -270,9 +270,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             lh_offset,
         };
 
-        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -280,6 +279,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
                 *self.is_zip64 = true;
             }
         }
+        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
 
         Ok(())
     }
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..404a53e 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -226,9 +226,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
         }
 
-        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.writer.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -236,6 +235,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.writer.is_zip64 = true;
             }
         }
+        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         Ok(())
     }
 }
-- 
2.43.0


From 144494485d424f80ac60b456796f36f76d419f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 06/17] fix: require zip64 records when the central directory
 exceeds 4 GiB

---
 src/base/write/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e89b86b..33d217a 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -203,6 +203,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
 
         let central_directory_size = self.writer.offset() - cd_offset;
         let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
+            } else {
+                self.is_zip64 = true;
+            }
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
-- 
2.43.0


From 31861094b8536053358afe58b1b9a45f4621d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 07/17] fix: count bytes accepted through vectored writes in
 the offset

---
 src/base/write/io/offset.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/base/write/io/offset.rs b/src/base/write/io/offset.rs
index 98d3777..76d945c 100644
--- a/src/base/write/io/offset.rs
+++ b/src/base/write/io/offset.rs
@@ -68,6 +68,13 @@ where
         cx: &mut Context<'_>,
         bufs: &[IoSlice<'_>],
     ) -> Poll<Result<usize, Error>> {
-        self.project().inner.poll_write_vectored(cx, bufs)
+        let this = self.project();
+        let poll = this.inner.poll_write_vectored(cx, bufs);
+
+        if let Poll::Ready(Ok(inner)) = &poll {
+            *this.offset += *inner as u64;
+        }
+
+        poll
     }
 }
-- 
2.43.0


From c08cd68671a0ebba2c9b28be78214bf659dc57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 08/17] fix: treat a truncated name, extra field or comment as
 an unexpected EOF

---
 src/base/read/io/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 3955297..347d695 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -28,6 +28,9 @@ where
 {
     let mut buffer = Vec::with_capacity(length);
     reader.take(length as u64).read_to_end(&mut buffer).await?;
+    if buffer.len() != length {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(buffer)
 }
-- 
2.43.0


From 0f671560eebcca3d1721ed18645a69b8ab0d7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 09/17] fix: replace the previous value in date and time
 builder setters

---
 src/date/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..9768045 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -27,35 +27,35 @@ impl ZipDateTimeBuilder {
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
         let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        self.0.date = (self.0.date & !0xFE00) | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = (self.0.date & !0x1E0) | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = (self.0.date & !0x1F) | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = (self.0.time & !0xF800) | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = (self.0.time & !0x7E0) | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = (self.0.time & !0x1F) | second;
         self
     }
 
-- 
2.43.0


From 8de5015cfc4de7e1cfaeb94d0222789ea2f5035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 10/17] fix: refuse encrypted entries in every reader

---
 src/entry/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry/mod.rs b/src/entry/mod.rs
index a0bd841..a69d485 100644
--- a/src/entry/mod.rs
+++ b/src/entry/mod.rs
@@ -203,6 +203,9 @@ impl StoredZipEntry {
 
         // Skip the local file header and trailing data
         let header = LocalFileHeader::from_reader(&mut reader).await?;
+        if header.flags.encrypted {
+            return Err(ZipError::FeatureNotSupported("encryption"));
+        }
         let trailing_size = (header.file_name_length as i64) + (header.extra_field_length as i64);
         reader.seek(SeekFrom::Current(trailing_size)).await?;
 
-- 
2.43.0


From ac088273077e0415ce90c34d816b3c40722a990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 11/17] fix: use zip64 for values equal to the 0xFFFFFFFF
 sentinel

---
 src/base/write/entry_whole.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 404a53e..7a82860 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -62,8 +62,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_sizes(&mut self) -> Result<()> {
-        let uncompressed_larger = self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE.into();
-        let compressed_larger = self.entry.compressed_size > NON_ZIP64_MAX_SIZE.into();
+        let uncompressed_larger = self.entry.uncompressed_size >= NON_ZIP64_MAX_SIZE.into();
+        let compressed_larger = self.entry.compressed_size >= NON_ZIP64_MAX_SIZE.into();
 
         if !uncompressed_larger && !compressed_larger {
             return Ok(());
@@ -83,7 +83,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        if self.lh_offset < NON_ZIP64_MAX_SIZE.into() {
             return Ok(());
         }
 
-- 
2.43.0


From f92e283410f1e60b08b6ae1bb4459979730f97c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 12/17] fix: end the entry stream of an archive without entries
 instead of failing

---
 src/base/read/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 33e0f75..6790e5b 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -22,7 +22,8 @@ use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
 use crate::spec::consts::{
-    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE,
+    CDH_SIGNATURE, EOCDR_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+    ZIP64_EOCDR_SIGNATURE,
 };
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
@@ -210,6 +211,7 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From a2fd6e06c4ed59f2681f0c415e07dbc22576ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 13/17] fix: carry UTF-8 text in a version 1 Unicode field next
 to one of another version

---
 src/base/write/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 33d217a..c2c9a60 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -301,13 +301,16 @@ where
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodePath(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodePath(extra_field) = field {
+        if let ExtraField::InfoZipUnicodePath(extra_field @ InfoZipUnicodePathExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
@@ -318,13 +321,16 @@ pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
 pub(crate) fn get_or_put_info_zip_unicode_comment_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodeCommentExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodeComment(extra_field) = field {
+        if let ExtraField::InfoZipUnicodeComment(extra_field @ InfoZipUnicodeCommentExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
-- 
2.43.0


From f4379b161e7308f434ed70394749a6af81054843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 14/17] fix: replace a zip64 field the entry of a streamed
 write already carries

---
 src/base/write/entry_stream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index cf0ae49..8e4a3c8 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -111,6 +111,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             if !writer.is_zip64 {
                 writer.is_zip64 = true;
             }
+            // The entry may have been read from another archive; its zip64 values don't describe this one.
+            entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
             entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(Zip64ExtendedInformationExtraField {
                 header_id: HeaderId::ZIP64_EXTENDED_INFORMATION_EXTRA_FIELD,
                 uncompressed_size: Some(entry.uncompressed_size),
-- 
2.43.0


From b8f700c3058ed1f775c3d30ec62174277ead2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 15/17] fix: drop zip64 fields of another archive before
 writing any entry

---
 src/base/write/entry_stream.rs | 5 +++--
 src/base/write/entry_whole.rs  | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 8e4a3c8..47f8878 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -105,14 +105,15 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        // The entry may have been read from another archive; its zip64 values don't describe this one.
+        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
             if !writer.is_zip64 {
                 writer.is_zip64 = true;
             }
-            // The entry may have been read from another archive; its zip64 values don't describe this one.
-            entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
             entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(Zip64ExtendedInformationExtraField {
                 header_id: HeaderId::ZIP64_EXTENDED_INFORMATION_EXTRA_FIELD,
                 uncompressed_size: Some(entry.uncompressed_size),
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 7a82860..418a1f3 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -147,6 +147,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // The entry may have been read from another archive; its zip64 values don't describe this one.
+        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
-- 
2.43.0


From b75dbb852c369b0f5a22d1705d4354c478e2225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 16/17] fix: streamed deflate entries are compressed at the
 level the entry asks for

EntryStreamWriter created its deflate encoder at the default level, so
ZipEntryBuilder::deflate_option had no effect on streamed entries.
---
 src/base/write/compressed_writer.rs | 12 +++++++-----
 src/base/write/entry_stream.rs      |  6 ++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/base/write/compressed_writer.rs b/src/base/write/compressed_writer.rs
index e99b767..d66130c 100644
--- a/src/base/write/compressed_writer.rs
+++ b/src/base/write/compressed_writer.rs
@@ -2,6 +2,7 @@
 // MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
 
 use crate::base::write::io::offset::AsyncOffsetWriter;
+use crate::entry::ZipEntry;
 use crate::spec::Compression;
 
 use std::io::Error;
@@ -27,17 +28,18 @@ pub enum CompressedAsyncWriter<'b, W: AsyncWrite + Unpin> {
 }
 
 impl<'b, W: AsyncWrite + Unpin> CompressedAsyncWriter<'b, W> {
-    pub fn from_raw(writer: &'b mut AsyncOffsetWriter<W>, compression: Compression, precompressed: bool) -> Self {
+    pub fn from_raw(writer: &'b mut AsyncOffsetWriter<W>, entry: &ZipEntry, precompressed: bool) -> Self {
         if precompressed {
             return CompressedAsyncWriter::Stored(ShutdownIgnoredWriter(writer));
         }
 
-        match compression {
+        match entry.compression() {
             Compression::Stored => CompressedAsyncWriter::Stored(ShutdownIgnoredWriter(writer)),
             #[cfg(feature = "deflate")]
-            Compression::Deflate => {
-                CompressedAsyncWriter::Deflate(write::DeflateEncoder::new(ShutdownIgnoredWriter(writer)))
-            }
+            Compression::Deflate => CompressedAsyncWriter::Deflate(write::DeflateEncoder::with_quality(
+                ShutdownIgnoredWriter(writer),
+                entry.compression_level,
+            )),
             #[cfg(feature = "deflate64")]
             Compression::Deflate64 => panic!("writing deflate64 is not supported"),
             #[cfg(feature = "bzip2")]
diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 47f8878..c1ea870 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -59,8 +59,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
 
         let cd_entries = &mut writer.cd_entries;
         let is_zip64 = &mut writer.is_zip64;
-        let writer =
-            AsyncOffsetWriter::new(CompressedAsyncWriter::from_raw(&mut writer.writer, entry.compression(), false));
+        let writer = AsyncOffsetWriter::new(CompressedAsyncWriter::from_raw(&mut writer.writer, &entry, false));
 
         Ok(EntryStreamWriter {
             writer,
@@ -87,8 +86,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
 
         let cd_entries = &mut writer.cd_entries;
         let is_zip64 = &mut writer.is_zip64;
-        let writer =
-            AsyncOffsetWriter::new(CompressedAsyncWriter::from_raw(&mut writer.writer, entry.compression(), true));
+        let writer = AsyncOffsetWriter::new(CompressedAsyncWriter::from_raw(&mut writer.writer, &entry, true));
 
         Ok(EntryStreamWriter {
             writer,
-- 
2.43.0


From 06668b5ce8b20adee0b1da600a8410087433aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 17/17] fix: compress() of a stored entry returns the data
 instead of panicking

---
 src/base/write/entry_whole.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 418a1f3..80b87a7 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -295,7 +295,7 @@ pub async fn compress(entry: &ZipEntry, data: &[u8]) -> Vec<u8> {
             writer.close().await.unwrap();
             writer.into_inner().into_inner()
         }
-        _ => unreachable!(),
+        Compression::Stored => data.to_vec(),
     }
 }
 
-- 
2.43.0

