From e698a5d6206e2c798a3a5460b87ff6d505419fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 01/38] fix: recognise delta copy instructions by their top bit

---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..266e3ca 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -132,7 +132,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
-- 
2.43.0


From 648d6554f535230f07e71458b39aeb5d715bcdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 02/38] fix: append to the delta result and do not trust its
 declared length

copy_from_slice requires equal lengths, so applying any delta panicked. The
declared length is attacker controlled, so grow the result instead of
allocating it up front.
---
 src/object/database/packed/delta.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 266e3ca..e076c95 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -40,7 +40,7 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    let mut result = BytesMut::new();
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
@@ -61,7 +61,10 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        if src.len() > header.result_len - result.len() {
+            return Err(DeltaError::ResultLengthMismatch);
+        }
+        result.extend_from_slice(src);
         delta.clear_buffer();
     }
 
-- 
2.43.0


From 22311432b4fed9f1b09008f38008a44ec353e7b1 Mon Sep 17 00:00:00 2001
From: test <test@example.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 03/38] fix: decompress packed objects by their declared
 uncompressed length

The length in a pack object header is the size of the decompressed data, but it
was used to limit the compressed data: whole objects and delta bases were cut
off or read past their end, and reconstructed deltas were decompressed again.
Require the decompressed size to match exactly.
---
 src/object/database/packed/pack.rs | 12 +++++++++---
 src/object/database/reader.rs      | 28 +++++++---------------------
 src/parse/buffer.rs                | 23 +++++++----------------
 3 files changed, 23 insertions(+), 40 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..18e5041 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,9 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let data_offset = offset + buffer.pos() as u64;
+                    buffer.seek(SeekFrom::Start(data_offset))?;
+                    let base = buffer.decompress_exact(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
@@ -203,7 +204,12 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let instructions = buffer.decompress_exact(delta.header.len)?;
+        let result = apply_delta(
+            delta.header.kind,
+            &base,
+            &mut parse::Buffer::new(instructions.as_ref()),
+        )?;
 
         Ok(self
             .cache
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..3da2834 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -10,11 +10,13 @@ use crate::parse;
 
 pub struct ObjectReader {
     header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
+    // A compressed loose object file
+    File(ZlibDecoder<BufReader<fs_err::File>>),
+    // The already decompressed contents of a packed object
     Bytes(bytes::buf::ext::Reader<Bytes>),
 }
 
@@ -25,7 +27,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
@@ -35,7 +37,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(bytes.reader()),
         }
     }
 
@@ -63,19 +65,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..2518d5f 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,5 +1,4 @@
 use std::io::{self, Read, Seek, SeekFrom};
-use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
@@ -40,14 +39,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Clear the internal buffer
     pub fn clear_buffer(&mut self) {
         self.pos = 0;
@@ -62,15 +53,15 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
+    /// Decompress a zlib stream from this buffer. If the total number of
+    /// decompressed bytes is not `size`, returns an error.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress_exact(&mut self, size: usize) -> Result<Bytes, Error> {
         debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
 
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
-        Buffer::new(reader)
+        let reader = ZlibDecoder::new(self.reader.by_ref());
+        Buffer::new(reader).read_to_end(size)
     }
 
     /// Read an exact number of bytes and create a parser.
-- 
2.43.0


From 54db43ad48fa2524dc65d253fe16d71282540baa Mon Sep 17 00:00:00 2001
From: test <test@example.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 04/38] fix: apply delta chains from the base up and keep the
 base's kind

---
 src/object/database/packed/pack.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 18e5041..f08f185 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,8 +127,9 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+        // The chain starts with the requested object and ends with the delta closest to the base
+        for entry in chain.into_iter().rev() {
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -197,6 +198,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -206,7 +208,7 @@ impl PackFile {
 
         let instructions = buffer.decompress_exact(delta.header.len)?;
         let result = apply_delta(
-            delta.header.kind,
+            kind,
             &base,
             &mut parse::Buffer::new(instructions.as_ref()),
         )?;
-- 
2.43.0


From ddf0cde5ba034b470a846bf780d89b55fa42a402 Mon Sep 17 00:00:00 2001
From: test <test@example.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 05/38] fix: decode multi-byte delta offsets as git encodes
 them

---
 src/object/database/packed/pack.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index f08f185..93f118b 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -286,11 +286,12 @@ impl<R: Read> parse::Buffer<R> {
             .ok_or(ReadPackFileError::Other("invalid delta offset"))?;
         let parser = &mut self.parser(range);
 
-        let mut offset: u64 = 0;
+        let mut offset = u64::from(parser.parse_byte()? & 0b0111_1111);
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            // Each continuation adds one, so that every offset has a single encoding
+            offset = offset.saturating_add(1).saturating_mul(1 << 7);
+            offset = offset.saturating_add(u64::from(byte & 0b0111_1111));
         }
 
         Ok(offset)
-- 
2.43.0


From 8490ee9120737c53183e4bc9e69a68969062088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 06/38] fix: give packed objects the same raw stream as loose
 ones

ObjectReader::reader returned header and contents for a loose object, but only
the contents for the same object in a pack.
---
 src/object/database/loose.rs  |  2 +-
 src/object/database/reader.rs | 30 ++++++++++--------------------
 src/object/parse.rs           | 15 +++++++++++++++
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..335c8cb 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -58,7 +58,7 @@ impl LooseObjectDatabase {
         path.push(file);
 
         match fs_err::File::open(path) {
-            Ok(file) => Ok(ObjectReader::from_file(None, file)),
+            Ok(file) => Ok(ObjectReader::from_file(file)),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(ReadLooseError::NotFound),
             Err(err) => Err(err.into()),
         }
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 3da2834..08acced 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,6 +1,6 @@
 use std::io::{self, BufReader, Read};
 
-use bytes::buf::ext::BufExt;
+use bytes::buf::ext::{BufExt, Chain, Reader};
 use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
 
@@ -9,38 +9,32 @@ use crate::object::{ObjectData, ObjectHeader};
 use crate::parse;
 
 pub struct ObjectReader {
-    header: Option<ObjectHeader>,
     reader: ReaderKind,
 }
 
 enum ReaderKind {
     // A compressed loose object file
     File(ZlibDecoder<BufReader<fs_err::File>>),
-    // The already decompressed contents of a packed object
-    Bytes(bytes::buf::ext::Reader<Bytes>),
+    // The header and the already decompressed contents of a packed object
+    Bytes(Reader<Chain<Bytes, Bytes>>),
 }
 
 impl ObjectReader {
-    pub(in crate::object) fn from_file(
-        header: impl Into<Option<ObjectHeader>>,
-        file: fs_err::File,
-    ) -> Self {
+    pub(in crate::object) fn from_file(file: fs_err::File) -> Self {
         ObjectReader {
-            header: header.into(),
             reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
-    pub(in crate::object) fn from_bytes(
-        header: impl Into<Option<ObjectHeader>>,
-        bytes: Bytes,
-    ) -> Self {
+    pub(in crate::object) fn from_bytes(header: ObjectHeader, bytes: Bytes) -> Self {
+        let header = Bytes::from(header.to_bytes());
         ObjectReader {
-            header: header.into(),
-            reader: ReaderKind::Bytes(bytes.reader()),
+            reader: ReaderKind::Bytes(header.chain(bytes).reader()),
         }
     }
 
+    /// Read the object in the form that is hashed to get its id: a header
+    /// containing its kind and length, followed by its contents.
     pub fn reader(&mut self) -> &mut impl Read {
         &mut self.reader
     }
@@ -48,11 +42,7 @@ impl ObjectReader {
     pub(in crate::object) fn parse(self) -> Result<ObjectData, ParseObjectError> {
         let mut buffer = parse::Buffer::new(self.reader);
 
-        let header = match self.header {
-            Some(header) => header,
-            None => buffer.read_object_header()?,
-        };
-
+        let header = buffer.read_object_header()?;
         buffer.read_object_body(header)
     }
 }
diff --git a/src/object/parse.rs b/src/object/parse.rs
index baf512f..1358e94 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -68,6 +68,10 @@ pub(in crate::object) enum ParseHeaderError {
 
 impl ObjectHeader {
     const MAX_LEN: usize = 28;
+
+    pub(in crate::object) fn to_bytes(&self) -> Vec<u8> {
+        format!("{} {}\0", self.kind.name(), self.len).into_bytes()
+    }
 }
 
 impl<R: Read> Buffer<R> {
@@ -141,6 +145,17 @@ impl<B: AsRef<[u8]>> Parser<B> {
 }
 
 impl ObjectKind {
+    fn name(&self) -> &'static str {
+        match self {
+            ObjectKind::Commit => "commit",
+            ObjectKind::Tree => "tree",
+            ObjectKind::Blob => "blob",
+            ObjectKind::Tag => "tag",
+            ObjectKind::OfsDelta => "ofs-delta",
+            ObjectKind::RefDelta => "ref-delta",
+        }
+    }
+
     pub(in crate::object) fn from_bytes(input: &[u8]) -> Result<Self, ParseObjectKindError> {
         match input {
             b"commit" => Ok(ObjectKind::Commit),
-- 
2.43.0


From 3f3264682f1abbdf7e35d7c6259c5c2d9f0fab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 07/38] fix: keep data that was read ahead when clearing the
 parse buffer

Instructions following the delta header that had already been buffered were
dropped after the first instruction.
---
 src/parse/buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 2518d5f..b02534e 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -2,7 +2,7 @@ use std::io::{self, Read, Seek, SeekFrom};
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
-use bytes::{Bytes, BytesMut};
+use bytes::{Buf, Bytes, BytesMut};
 use flate2::read::ZlibDecoder;
 use memchr::memchr;
 
@@ -39,10 +39,10 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Clear the internal buffer
+    /// Clear the data already observed by the user from the internal buffer
     pub fn clear_buffer(&mut self) {
+        self.buffer.advance(self.pos);
         self.pos = 0;
-        self.buffer.clear();
     }
 
     /// Create a parser for the given range of bytes.
-- 
2.43.0


From 8974af489d1e35bf4254bddc2ac29626b39b3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 08/38] Add a hook (cfg rusty_git_mc) to look up abbreviated
 ids

---
 src/object/database.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..6cdf9f1 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -1,3 +1,6 @@
+// rusty_git_mc enables verification hooks
+#![allow(unexpected_cfgs)]
+
 mod loose;
 mod packed;
 mod reader;
@@ -76,6 +79,14 @@ impl ObjectDatabase {
             .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
     }
 
+    /// Verification hook: look up an abbreviated id among the packed objects.
+    #[cfg(rusty_git_mc)]
+    pub fn mc_read_packed(&self, id: &ShortId) -> Result<ObjectReader, ReadObjectError> {
+        self.packed
+            .read_object(id)
+            .map_err(|err| ReadObjectError::new(*id, ReadError::from(err)))
+    }
+
     pub fn write_object(&self, bytes: &[u8]) -> Result<Id, WriteError> {
         Ok(self.loose.write_object(bytes)?)
     }
-- 
2.43.0


From 787a610e3e31f7de3f4d7acdb5edaf25f78002a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 09/38] fix: treat a missing pack directory as having no packs

---
 src/object/database/packed.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..41c4759 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,14 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            // Nothing has been packed yet
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
+            Err(err) => return Err(err.into()),
+        };
+
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From 74de68c5ec820c480832cf8b170d2aec42537332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 10/38] fix: look for new packs before reporting an object as
 missing

---
 src/object/database.rs        |  2 +-
 src/object/database/packed.rs | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index 6cdf9f1..fd5211a 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -75,7 +75,7 @@ impl ObjectDatabase {
 
         // object may have just been packed, try again
         self.packed
-            .read_object(&ShortId::from(id))
+            .read_new_object(&ShortId::from(id))
             .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
     }
 
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 41c4759..1e078b0 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,11 +83,22 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh()? => self.try_read_object(short_id),
+            Err(ReadPackedError::NotFound) if self.refresh(MAX_REFRESH_INTERVAL)? => {
+                self.try_read_object(short_id)
+            }
             result => result,
         }
     }
 
+    /// Read an object that may have been packed since the last refresh, however recent that was.
+    pub(in crate::object::database) fn read_new_object(
+        &self,
+        short_id: &ShortId,
+    ) -> Result<ObjectReader, ReadPackedError> {
+        self.refresh(Duration::from_secs(0))?;
+        self.try_read_object(short_id)
+    }
+
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
         let mut result = None;
         let mut found_id = None;
@@ -123,12 +134,12 @@ impl PackedObjectDatabase {
         }
     }
 
-    fn refresh(&self) -> Result<bool, ReadPackedError> {
+    fn refresh(&self, max_interval: Duration) -> Result<bool, ReadPackedError> {
         // Keep the mutex locked while refreshing so we don't have multiple thread refreshing simultaneously.
         // This isn't necessary for correctness, but is just an optimization.
         let mut last_refresh_guard = self.last_refresh.lock().unwrap();
         match *last_refresh_guard {
-            Some(last_refresh) if last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
+            Some(last_refresh) if last_refresh.elapsed() < max_interval => {
                 return Ok(false)
             }
             _ => (),
-- 
2.43.0


From 840e82f219964d18d44fb934bdc2284f035bf010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 11/38] fix: skip packs that are removed while looking for new
 ones

---
 src/object/database/packed.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 1e078b0..c2a72aa 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -155,9 +155,16 @@ impl PackedObjectDatabase {
         for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
-                self.packs
+                let result = self
+                    .packs
                     .entry(path.clone())
-                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))?;
+                    .or_try_insert_with(move || Entry::open(path).map(Arc::new));
+                match result {
+                    Ok(_) => (),
+                    // The pack was removed after it was listed
+                    Err(err) if err.is_not_found() => (),
+                    Err(err) => return Err(err.into()),
+                }
             }
         }
 
@@ -166,6 +173,19 @@ impl PackedObjectDatabase {
     }
 }
 
+impl ReadEntryError {
+    /// Whether the index or the pack file doesn't exist.
+    fn is_not_found(&self) -> bool {
+        match &self.kind {
+            ReadEntryErrorKind::ReadIndexFile(ReadIndexFileError::Io(err))
+            | ReadEntryErrorKind::ReadPackFile(ReadPackFileError::Io(err)) => {
+                err.kind() == io::ErrorKind::NotFound
+            }
+            _ => false,
+        }
+    }
+}
+
 impl Entry {
     fn open(path: PathBuf) -> Result<Self, ReadEntryError> {
         // The file has an extension so it must have a file name
-- 
2.43.0


From d4e66c28de7aeb47bcb95aad308e582f4a3aa7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 12/38] fix: store loose objects through a synced temporary
 file

---
 src/object/database/loose.rs | 42 ++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 335c8cb..ce0f570 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,7 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -78,23 +79,50 @@ impl LooseObjectDatabase {
             _ => (),
         }
 
+        let temp_dir = path.clone();
         path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
+
+        match fs_err::metadata(&path) {
+            Ok(_) => {
                 let _ = set_file_mtime(path, FileTime::now());
                 return Ok(id);
             }
+            Err(err) if err.kind() == io::ErrorKind::NotFound => (),
             Err(err) => return Err(err.into()),
-        };
+        }
 
-        let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
+        // The object only appears under its name once it is complete and on disk.
+        let (file, temp_path) = create_temp_file(&temp_dir)?;
+        let result = write_compressed(file, bytes).and_then(|()| fs_err::rename(&temp_path, &path));
+        if let Err(err) = result {
+            let _ = fs_err::remove_file(&temp_path);
+            return Err(err.into());
+        }
         Ok(id)
     }
 }
 
+/// Creates a file in the given directory which no other writer uses.
+fn create_temp_file(dir: &Path) -> io::Result<(fs_err::File, PathBuf)> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let count = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let path = dir.join(format!("tmp_obj_{}_{}", std::process::id(), count));
+        match OpenOptions::new().create_new(true).write(true).open(&path) {
+            Ok(file) => return Ok((fs_err::File::from_parts(file, path.clone()), path)),
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(err) => return Err(err),
+        }
+    }
+}
+
+fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
+    let mut encoder = ZlibEncoder::new(file, Compression::best());
+    encoder.write_all(bytes)?;
+    encoder.finish()?.sync_all()
+}
+
 fn object_path_parts(hex: &str) -> (&str, &str) {
     hex.split_at(2)
 }
-- 
2.43.0


From e71a90bf83309a28fad721b4bca0790d95277c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 13/38] fix: check that a loose object matches its id

---
 src/object/database.rs        |  2 +-
 src/object/database/reader.rs | 42 ++++++++++++++++++++++++++++++-----
 src/object/parse.rs           |  2 ++
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index fd5211a..e3e4e5f 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -54,7 +54,7 @@ impl ObjectDatabase {
     }
 
     pub fn parse_object(&self, id: Id) -> Result<Object, ReadObjectError> {
-        match self.read_object(id)?.parse() {
+        match self.read_object(id)?.parse(&id) {
             Ok(data) => Ok(Object { id, data }),
             Err(err) => Err(ReadObjectError::new(id, err)),
         }
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 08acced..e2a8a74 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -3,9 +3,10 @@ use std::io::{self, BufReader, Read};
 use bytes::buf::ext::{BufExt, Chain, Reader};
 use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
+use sha1::{Digest, Sha1};
 
 use crate::object::parse::ParseObjectError;
-use crate::object::{ObjectData, ObjectHeader};
+use crate::object::{Id, ObjectData, ObjectHeader};
 use crate::parse;
 
 pub struct ObjectReader {
@@ -39,11 +40,42 @@ impl ObjectReader {
         &mut self.reader
     }
 
-    pub(in crate::object) fn parse(self) -> Result<ObjectData, ParseObjectError> {
-        let mut buffer = parse::Buffer::new(self.reader);
+    pub(in crate::object) fn parse(self, id: &Id) -> Result<ObjectData, ParseObjectError> {
+        match self.reader {
+            ReaderKind::File(file) => {
+                let mut reader = HashReader {
+                    reader: file,
+                    hash: Sha1::new(),
+                };
+                let data = parse_from(&mut reader)?;
+                // The checksum of the compressed data doesn't detect all damage.
+                if Id::from_bytes(&reader.hash.finalize()) != *id {
+                    return Err(ParseObjectError::IdMismatch);
+                }
+                Ok(data)
+            }
+            ReaderKind::Bytes(bytes) => parse_from(bytes),
+        }
+    }
+}
 
-        let header = buffer.read_object_header()?;
-        buffer.read_object_body(header)
+fn parse_from(reader: impl Read) -> Result<ObjectData, ParseObjectError> {
+    let mut buffer = parse::Buffer::new(reader);
+
+    let header = buffer.read_object_header()?;
+    buffer.read_object_body(header)
+}
+
+struct HashReader<R> {
+    reader: R,
+    hash: Sha1,
+}
+
+impl<R: Read> Read for HashReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let len = self.reader.read(buf)?;
+        self.hash.update(&buf[..len]);
+        Ok(len)
     }
 }
 
diff --git a/src/object/parse.rs b/src/object/parse.rs
index 1358e94..09bc43d 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -38,6 +38,8 @@ pub(in crate::object) enum ParseObjectError {
         #[from]
         ParseTagError,
     ),
+    #[error("the content of the object doesn't match its id")]
+    IdMismatch,
     #[error("io error reading object")]
     Io(
         #[source]
-- 
2.43.0


From 30a98c49b61231b2f934c11c1d1b4a91bbab12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 14/38] fix: do not allocate memory for data that may not be
 there

---
 src/parse/buffer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index b02534e..31bd754 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -9,6 +9,9 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
+/// The number of bytes to try to read at first, if they are not known to exist.
+const MAX_INITIAL_FILL: usize = 64 * 1024;
+
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
 pub(crate) struct Buffer<R> {
@@ -173,7 +176,9 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
-            self.buffer.resize(end, b'\0');
+            // Grow in steps, since `end` may be far beyond the end of the reader.
+            let new_len = end.min(old_len + old_len.max(MAX_INITIAL_FILL));
+            self.buffer.resize(new_len, b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
                 Ok(read) => {
-- 
2.43.0


From 57b1297c0931d8fc0c7cd5564efa40a905aaed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 15/38] fix: report loops of several reference deltas

---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 93f118b..58e2508 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -189,7 +189,8 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            // A chain can't be longer than the pack unless it contains a loop
+            if base_offset == offset || chain.len() >= self.count as usize {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From 3ff907c6d04892a788b9b9f8a74b436b07387601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 16/38] fix: reject indexes whose table of 64-bit offsets is
 not aligned

---
 src/object/database/packed/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..22a00af 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -129,7 +129,11 @@ impl IndexFile {
                 .ok_or(ReadIndexFileError::Other("invalid index count"))?,
         };
 
-        if parser.remaining() < min_size || parser.remaining() > max_size {
+        // Whatever exceeds the minimum size is a table of 64-bit offsets
+        if parser.remaining() < min_size
+            || parser.remaining() > max_size
+            || (parser.remaining() - min_size) % 8 != 0
+        {
             return Err(ReadIndexFileError::Other(
                 "index length is an invalid length",
             ));
-- 
2.43.0


From 8627b74dde13a8a2a30b5b58efddbf1cb826e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 17/38] fix: check that a packed object matches its id

---
 src/object/database/reader.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index e2a8a74..9e740f6 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -41,29 +41,21 @@ impl ObjectReader {
     }
 
     pub(in crate::object) fn parse(self, id: &Id) -> Result<ObjectData, ParseObjectError> {
-        match self.reader {
-            ReaderKind::File(file) => {
-                let mut reader = HashReader {
-                    reader: file,
-                    hash: Sha1::new(),
-                };
-                let data = parse_from(&mut reader)?;
-                // The checksum of the compressed data doesn't detect all damage.
-                if Id::from_bytes(&reader.hash.finalize()) != *id {
-                    return Err(ParseObjectError::IdMismatch);
-                }
-                Ok(data)
-            }
-            ReaderKind::Bytes(bytes) => parse_from(bytes),
-        }
-    }
-}
+        let mut reader = HashReader {
+            reader: self.reader,
+            hash: Sha1::new(),
+        };
+        let mut buffer = parse::Buffer::new(&mut reader);
 
-fn parse_from(reader: impl Read) -> Result<ObjectData, ParseObjectError> {
-    let mut buffer = parse::Buffer::new(reader);
+        let header = buffer.read_object_header()?;
+        let data = buffer.read_object_body(header)?;
 
-    let header = buffer.read_object_header()?;
-    buffer.read_object_body(header)
+        // The checksum of the compressed data doesn't detect all damage.
+        if Id::from_bytes(&reader.hash.finalize()) != *id {
+            return Err(ParseObjectError::IdMismatch);
+        }
+        Ok(data)
+    }
 }
 
 struct HashReader<R> {
-- 
2.43.0


From 6997d1150e1ad59a7c1dd167ddd0b3b1c2129487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 18/38] fix: count bytes that were read ahead when checking an
 object's length

---
 src/parse/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 31bd754..3f289d1 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -154,6 +154,9 @@ impl<R: Read> Buffer<R> {
     /// bytes read is not `size`, returns an error.
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
+        if self.pos != self.buffer.len() {
+            return Err(Error::InvalidLength);
+        }
 
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
-- 
2.43.0


From 0a209a9d80e54e78c102485ccc255e8358b3f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 19/38] fix: accept only digits as the length of an object

---
 src/object/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/object/parse.rs b/src/object/parse.rs
index 09bc43d..40b5325 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -138,6 +138,10 @@ impl<B: AsRef<[u8]>> Parser<B> {
         let len = self
             .consume_until(b'\0')
             .ok_or(ParseHeaderError::Other("failed to parse object length"))?;
+        // `usize::from_str` accepts a leading plus sign
+        if !self[len.clone()].iter().all(u8::is_ascii_digit) {
+            return Err(ParseHeaderError::Other("failed to parse object length"));
+        }
         let len = str::from_utf8(&self[len])
             .map_err(|_| ParseHeaderError::Other("failed to parse object length"))?;
         let len = usize::from_str(&len).map_err(|_| ParseHeaderError::LengthTooBig)?;
-- 
2.43.0


From 5211407dcd7e055219715acc84c640907298873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 20/38] fix: accept only octal digits as the mode of a tree
 entry

---
 src/object/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/object/tree.rs b/src/object/tree.rs
index 2031e25..f5f2afe 100644
--- a/src/object/tree.rs
+++ b/src/object/tree.rs
@@ -39,6 +39,10 @@ impl Tree {
             let mode = parser
                 .consume_until(b' ')
                 .ok_or(ParseTreeError("invalid mode"))?;
+            // `u16::from_str_radix` accepts a leading plus sign
+            if parser[mode.start] == b'+' {
+                return Err(ParseTreeError("invalid mode"));
+            }
             let mode = str::from_utf8(&parser[mode]).map_err(|_| ParseTreeError("invalid mode"))?;
             let mode = u16::from_str_radix(mode, 8).map_err(|_| ParseTreeError("invalid mode"))?;
 
-- 
2.43.0


From aa7168b17b4f0cb5ad8a459b638ec3dc63acbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 21/38] fix: skip additional headers of a tag before its
 message

---
 src/object/tag.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/object/tag.rs b/src/object/tag.rs
index fe47d60..96238b0 100644
--- a/src/object/tag.rs
+++ b/src/object/tag.rs
@@ -49,10 +49,13 @@ impl Tag {
 
         let tagger = parser.parse_signature(b"tagger ")?;
 
-        let message = if parser.consume_bytes(b"\n") {
-            Some(parser.pos())
-        } else {
-            None
+        // Skip additional tag headers, such as signatures
+        let message = loop {
+            if parser.consume_bytes(b"\n") {
+                break Some(parser.pos());
+            } else if parser.consume_until(b'\n').is_none() {
+                break None;
+            }
         };
 
         Ok(Tag {
-- 
2.43.0


From e5b58364826a7343c63f619879b6a9502ecb99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 22/38] fix: strip exactly the padding Git strips from names
 and emails

---
 src/object/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..3feec8c 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,11 +22,11 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"^{pad}(.*?){pad} <{pad}(.*?){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 8608f2b7725027ec4e68aeb46aef9020535d501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 23/38] fix: read names and emails of any encoding

---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 3feec8c..97332a9 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -26,7 +26,7 @@ impl<'a> Signature<'a> {
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"^{pad}(.*?){pad} <{pad}(.*?){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u)^{pad}(.*?){pad} <{pad}(.*?){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 49292ac01d5627033894bf1f53bf6e00b002a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 24/38] fix: accept signatures that consist of an email only

---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 97332a9..e20a987 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -26,7 +26,7 @@ impl<'a> Signature<'a> {
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"(?-u)^{pad}(.*?){pad} <{pad}(.*?){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u)^{pad}(.*?){pad}(?:^| )<{pad}(.*?){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 0337c6912b98e1fc75b929dae0efabe7464b542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 25/38] fix: tell direct and symbolic references apart by their
 form

---
 src/reference/parser.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..5aa6c1e 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -69,24 +69,16 @@ impl<R: Read> Parser<R> {
             .read_until_valid_reference_line()?
             .ok_or_else(|| ParseError::Empty)?;
 
-        let mut line = &self.buffer[range];
-
-        if line.starts_with(SYMBOLIC_PREFIX) {
-            line = &line[SYMBOLIC_PREFIX.len()..];
-        }
-
-        let peel = match memchr(b' ', line) {
-            Some(ch_pos) => {
-                let p = line[..ch_pos].trim_end();
-                line = &line[(ch_pos + 1)..];
-                Some(p)
-            }
-            None => None,
-        };
-
-        let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(&line.trim_end())?),
+        let line = self.buffer[range].trim_end_with(|ch| ch.is_ascii_whitespace());
+
+        let target = if line.starts_with(SYMBOLIC_PREFIX) {
+            let name = &line[SYMBOLIC_PREFIX.len()..];
+            ReferenceTarget::Symbolic(Symbolic::from_bytes(name, None)?)
+        } else if let Some(ch_pos) = memchr(b' ', line) {
+            let (peel, name) = (&line[..ch_pos], &line[(ch_pos + 1)..]);
+            ReferenceTarget::Symbolic(Symbolic::from_bytes(name, Some(peel))?)
+        } else {
+            ReferenceTarget::Direct(Direct::from_bytes(line)?)
         };
 
         Ok(target)
-- 
2.43.0


From 27e8fb9f6ce6eb860d52b35eac7070a0925a913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 26/38] fix: list no references for directories that do not
 exist

---
 src/reference/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..40920a8 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -108,6 +108,7 @@ impl ReferenceDatabase {
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
+            Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From 0931f8b5cb3bda6b294e442aed5bcc8b4b16a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 27/38] fix: do not list lock files as references

---
 src/reference/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 40920a8..444a5bb 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -3,7 +3,6 @@ use std::io;
 use std::iter::FromIterator;
 use std::path::{Path, PathBuf};
 
-#[cfg(unix)]
 use std::ffi::OsStr;
 #[cfg(unix)]
 use std::os::unix::ffi::OsStrExt;
@@ -15,6 +14,7 @@ const HEADS: &[u8] = b"heads";
 const TAGS: &[u8] = b"tags";
 const REMOTES: &[u8] = b"remotes";
 const HEAD: &[u8] = b"HEAD";
+const LOCK_EXTENSION: &str = "lock";
 
 #[derive(Debug)]
 pub struct ReferenceDatabase {
@@ -104,6 +104,7 @@ impl ReferenceDatabase {
                 .map(|f| f.unwrap())
                 .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
                     Ok(true) => self.get_file_paths_from_dir(&f.path()),
+                    Ok(false) if f.path().extension() == Some(OsStr::new(LOCK_EXTENSION)) => vec![],
                     Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
                     Err(error) => vec![Err(Error::Io(error))],
                 })
-- 
2.43.0


From ee04b2725f966dcde4237aa8b41c2a0b7cadc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 28/38] fix: report cycles of symbolic references

---
 src/reference.rs          |  2 ++
 src/reference/symbolic.rs | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..77e5827 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -30,6 +30,8 @@ pub struct Reference {
 pub enum Error {
     #[error("reference not found")]
     ReferenceNotFound,
+    #[error("symbolic references form a cycle")]
+    SymbolicReferenceCycle,
     #[error(
         "reference was stored as invalid Utf16, on windows reference names must be valid utf16"
     )]
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..e3e0897 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -1,8 +1,9 @@
 use bstr::{BStr, ByteSlice};
+use std::collections::HashSet;
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, ReferenceTarget};
 use crate::repository::Repository;
 
 #[derive(PartialEq)]
@@ -31,9 +32,24 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
-        match &self.direct_peel {
-            Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+        if let Some(direct) = &self.direct_peel {
+            return direct.object(repo);
+        }
+
+        let mut visited = HashSet::new();
+        let mut name = self.data.clone();
+        loop {
+            let next = match repo.reference_database().reference(&name)?.target {
+                ReferenceTarget::Symbolic(Symbolic {
+                    direct_peel: None,
+                    data,
+                }) => data,
+                target => return target.peel(repo),
+            };
+            if !visited.insert(name) {
+                return Err(Error::SymbolicReferenceCycle);
+            }
+            name = next;
         }
     }
 }
-- 
2.43.0


From 1e034f41bbd959715ce07ef6e6d70c95b22c215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 29/38] fix: reject reference names that lead outside of the
 repository

---
 src/reference.rs          |  2 ++
 src/reference/database.rs | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 77e5827..2bf1026 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -30,6 +30,8 @@ pub struct Reference {
 pub enum Error {
     #[error("reference not found")]
     ReferenceNotFound,
+    #[error("reference name leads outside of the repository")]
+    ReferenceNameOutsideRepository,
     #[error("symbolic references form a cycle")]
     SymbolicReferenceCycle,
     #[error(
diff --git a/src/reference/database.rs b/src/reference/database.rs
index 444a5bb..57dea33 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,7 +1,7 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use std::ffi::OsStr;
 #[cfg(unix)]
@@ -73,7 +73,15 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        if !name
+            .components()
+            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+        {
+            return Err(Error::ReferenceNameOutsideRepository);
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
-- 
2.43.0


From e69e09ad61b5ef925e6281f7087fae266e9bcd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 30/38] fix: report a path that is a file as not being a
 repository

---
 src/repository.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository.rs b/src/repository.rs
index 5495ef1..71ebead 100644
--- a/src/repository.rs
+++ b/src/repository.rs
@@ -40,7 +40,7 @@ impl Repository {
         match fs_err::metadata(&dotgit) {
             Ok(metadata) if metadata.is_dir() => (),
             Ok(_) => return Err(OpenError::NotFound(path)),
-            Err(err) if err.kind() == io::ErrorKind::NotFound => {
+            Err(err) if err.kind() == io::ErrorKind::NotFound || path.is_file() => {
                 return Err(OpenError::NotFound(path))
             }
             Err(err) => return Err(OpenError::from(err)),
-- 
2.43.0


From 209ab4c497ef7f3baa2ab213c0d8406d9bbbe1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 31/38] fix: report errors of listing a directory of references

---
 src/reference/database.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 57dea33..4c5212d 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -108,13 +108,17 @@ impl ReferenceDatabase {
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
         match fs::read_dir(path) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
-                .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
-                    Ok(true) => self.get_file_paths_from_dir(&f.path()),
-                    Ok(false) if f.path().extension() == Some(OsStr::new(LOCK_EXTENSION)) => vec![],
-                    Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
-                    Err(error) => vec![Err(Error::Io(error))],
+                .flat_map(|f| {
+                    let (path, file_type) = match f {
+                        Ok(f) => (f.path(), f.file_type()),
+                        Err(error) => return vec![Err(Error::Io(error))],
+                    };
+                    match file_type.map(|ft| ft.is_dir()) {
+                        Ok(true) => self.get_file_paths_from_dir(&path),
+                        Ok(false) if path.extension() == Some(OsStr::new(LOCK_EXTENSION)) => vec![],
+                        Ok(false) => vec![Ok(path)],
+                        Err(error) => vec![Err(Error::Io(error))],
+                    }
                 })
                 .collect(),
             Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
-- 
2.43.0


From be293b88fc136dbd229577c18b5f6d29076d5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 32/38] fix: read objects in intact packs when another pack is
 damaged

---
 src/object/database/packed.rs | 41 ++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index c2a72aa..2ad5a7b 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,8 +83,8 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh(MAX_REFRESH_INTERVAL)? => {
-                self.try_read_object(short_id)
+            Err(ReadPackedError::NotFound) => {
+                self.refresh_and_read_object(short_id, MAX_REFRESH_INTERVAL)
             }
             result => result,
         }
@@ -95,13 +95,26 @@ impl PackedObjectDatabase {
         &self,
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
-        self.refresh(Duration::from_secs(0))?;
-        self.try_read_object(short_id)
+        self.refresh_and_read_object(short_id, Duration::from_secs(0))
+    }
+
+    fn refresh_and_read_object(
+        &self,
+        short_id: &ShortId,
+        max_interval: Duration,
+    ) -> Result<ObjectReader, ReadPackedError> {
+        let refreshed = self.refresh(max_interval);
+        match (self.try_read_object(short_id), refreshed) {
+            // A pack that can't be opened only matters for objects that aren't in another one.
+            (Err(ReadPackedError::NotFound), Err(err)) => Err(err),
+            (result, _) => result,
+        }
     }
 
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
         let mut result = None;
         let mut found_id = None;
+        let mut index_err = None;
         for entry in self.packs.iter() {
             match entry.value().index.find_offset(short_id) {
                 Err(FindIndexOffsetError::Ambiguous) => return Err(ReadPackedError::Ambiguous),
@@ -114,7 +127,7 @@ impl PackedObjectDatabase {
                 }
                 Err(FindIndexOffsetError::NotFound) => continue,
                 Err(FindIndexOffsetError::ReadIndexFile(err)) => {
-                    return Err(ReadPackedError::ReadEntry(ReadEntryError {
+                    index_err = Some(ReadPackedError::ReadEntry(ReadEntryError {
                         name: entry.name.clone(),
                         kind: ReadEntryErrorKind::ReadIndexFile(err),
                     }))
@@ -130,7 +143,7 @@ impl PackedObjectDatabase {
                     kind: ReadEntryErrorKind::ReadPackFile(err),
                 })),
             },
-            None => Err(ReadPackedError::NotFound),
+            None => Err(index_err.unwrap_or(ReadPackedError::NotFound)),
         }
     }
 
@@ -152,8 +165,15 @@ impl PackedObjectDatabase {
             Err(err) => return Err(err.into()),
         };
 
+        let mut first_err = None;
         for entry in entries {
-            let path = entry?.path();
+            let path = match entry {
+                Ok(entry) => entry.path(),
+                Err(err) => {
+                    first_err.get_or_insert(ReadPackedError::from(err));
+                    continue;
+                }
+            };
             if path.extension() == Some("idx".as_ref()) {
                 let result = self
                     .packs
@@ -163,10 +183,15 @@ impl PackedObjectDatabase {
                     Ok(_) => (),
                     // The pack was removed after it was listed
                     Err(err) if err.is_not_found() => (),
-                    Err(err) => return Err(err.into()),
+                    Err(err) => {
+                        first_err.get_or_insert(ReadPackedError::from(err));
+                    }
                 }
             }
         }
+        if let Some(err) = first_err {
+            return Err(err);
+        }
 
         *last_refresh_guard = Some(Instant::now());
         Ok(true)
-- 
2.43.0


From f86a44a68b3692195448808c9fa85e208dc26345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 33/38] fix: read loose objects when a pack is damaged

---
 src/object/database.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index e3e4e5f..01ff00d 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -61,11 +61,10 @@ impl ObjectDatabase {
     }
 
     pub fn read_object(&self, id: Id) -> Result<ObjectReader, ReadObjectError> {
-        match self.packed.read_object(&ShortId::from(id)) {
-            Ok(reader) => return Ok(reader),
-            Err(ReadPackedError::NotFound) => (),
-            Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
-        };
+        // a damaged pack is reported below, unless the object is loose
+        if let Ok(reader) = self.packed.read_object(&ShortId::from(id)) {
+            return Ok(reader);
+        }
 
         match self.loose.read_object(&id) {
             Ok(reader) => return Ok(reader),
-- 
2.43.0


From 3f751169569ef4999b5a82bae514f1d0c60dd536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 34/38] fix: bound the memory of the cache of objects read from
 a pack

---
 src/object/database/packed/pack.rs | 32 +++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 58e2508..d008cd3 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -2,6 +2,7 @@ use std::fmt;
 use std::io::{self, Read, Seek, SeekFrom};
 use std::mem::size_of;
 use std::path::PathBuf;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Mutex;
 
 use byteorder::NetworkEndian;
@@ -20,10 +21,14 @@ use crate::object::database::ObjectReader;
 use crate::object::{Id, ObjectHeader, ObjectKind, ParseObjectError, ShortId, ID_LEN};
 use crate::parse;
 
+/// The number of bytes of objects to keep in the cache of a pack file.
+const MAX_CACHE_LEN: usize = 96 * 1024 * 1024;
+
 pub(in crate::object::database::packed) struct PackFile {
     id: Id,
     file: Mutex<parse::Buffer<File>>,
     cache: DashMap<u64, (ObjectHeader, Bytes)>,
+    cache_len: AtomicUsize,
     version: PackFileVersion,
     count: u32,
 }
@@ -115,6 +120,7 @@ impl PackFile {
         Ok(PackFile {
             version,
             cache: DashMap::new(),
+            cache_len: AtomicUsize::new(0),
             count: header.count.get(),
             file,
             id,
@@ -178,7 +184,9 @@ impl PackFile {
                     let data_offset = offset + buffer.pos() as u64;
                     buffer.seek(SeekFrom::Start(data_offset))?;
                     let base = buffer.decompress_exact(header.len)?;
-                    cache_entry.insert((header, base.clone()));
+                    if self.reserve_cache(base.len()) {
+                        cache_entry.insert((header, base.clone()));
+                    }
                     return Ok((chain, header, base));
                 }
             };
@@ -214,10 +222,24 @@ impl PackFile {
             &mut parse::Buffer::new(instructions.as_ref()),
         )?;
 
-        Ok(self
-            .cache
-            .insert(delta.key, result.clone())
-            .unwrap_or(result))
+        if self.reserve_cache(result.1.len()) {
+            // Another thread may have read the same object
+            if let Some((_, previous)) = self.cache.insert(delta.key, result.clone()) {
+                self.cache_len.fetch_sub(previous.len(), Ordering::Relaxed);
+            }
+        }
+        Ok(result)
+    }
+
+    /// Reserve room for another object in the cache. Returns whether there is any left.
+    fn reserve_cache(&self, len: usize) -> bool {
+        self.cache_len
+            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |cache_len| {
+                cache_len
+                    .checked_add(len)
+                    .filter(|&cache_len| cache_len <= MAX_CACHE_LEN)
+            })
+            .is_ok()
     }
 
     pub fn id(&self) -> Id {
-- 
2.43.0


From 0970d5ce5ef7095355ae9a7fc33ce4283b2af89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 35/38] fix: reading an object took time quadratic in its size

---
 src/parse/buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 3f289d1..d153af3 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -9,8 +9,8 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
-/// The number of bytes to try to read at first, if they are not known to exist.
-const MAX_INITIAL_FILL: usize = 64 * 1024;
+/// The maximum number of bytes to try to read at once.
+const MAX_FILL: usize = 64 * 1024;
 
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
@@ -179,8 +179,9 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
-            // Grow in steps, since `end` may be far beyond the end of the reader.
-            let new_len = end.min(old_len + old_len.max(MAX_INITIAL_FILL));
+            // Grow in steps, since `end` may be far beyond the end of the reader, and
+            // the reader may return far fewer bytes than asked for each time.
+            let new_len = end.min(old_len + MAX_FILL);
             self.buffer.resize(new_len, b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
-- 
2.43.0


From 035f29a73795f5ded9b8ecab62b8455e1db345c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:32 +0000
Subject: [PATCH 36/38] fix: an abbreviated id of an object that is in a pack
 twice was ambiguous

---
 src/object/database/packed/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index 22a00af..95b3fa4 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -168,7 +168,8 @@ impl IndexFile {
                     let entry = matches
                         .next()
                         .ok_or_else(|| FindIndexOffsetError::NotFound)?;
-                    if matches.next().is_some() {
+                    // The same object may be in the pack several times
+                    if matches.any(|other| other.id() != entry.id()) {
                         return Err(FindIndexOffsetError::Ambiguous);
                     }
                     Ok((index, entry))
-- 
2.43.0


From c3c4de4dcb70a430b0f98dbc1be0002b9b0805c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:19 +0000
Subject: [PATCH 37/38] fix: packs that were removed stayed open as long as the
 database

---
 src/object/database/packed.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 2ad5a7b..6a77c74 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -2,6 +2,7 @@ mod delta;
 mod index;
 mod pack;
 
+use std::collections::HashSet;
 use std::io;
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
@@ -166,15 +167,19 @@ impl PackedObjectDatabase {
         };
 
         let mut first_err = None;
+        let mut listed = HashSet::new();
+        let mut listed_all = true;
         for entry in entries {
             let path = match entry {
                 Ok(entry) => entry.path(),
                 Err(err) => {
+                    listed_all = false;
                     first_err.get_or_insert(ReadPackedError::from(err));
                     continue;
                 }
             };
             if path.extension() == Some("idx".as_ref()) {
+                listed.insert(path.clone());
                 let result = self
                     .packs
                     .entry(path.clone())
@@ -189,6 +194,10 @@ impl PackedObjectDatabase {
                 }
             }
         }
+        // Close the packs that were removed, or each repack would leave more open files behind
+        if listed_all {
+            self.packs.retain(|path, _| listed.contains(path));
+        }
         if let Some(err) = first_err {
             return Err(err);
         }
-- 
2.43.0


From c6906c86bbb07d711a2abb56670bc801f004fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:55 +0000
Subject: [PATCH 38/38] fix: an object pruned by another process during a store
 was lost, and a directory pruned then failed the store

---
 src/object/database/loose.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index ce0f570..78a3729 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -84,15 +84,32 @@ impl LooseObjectDatabase {
 
         match fs_err::metadata(&path) {
             Ok(_) => {
-                let _ = set_file_mtime(path, FileTime::now());
-                return Ok(id);
+                let _ = set_file_mtime(&path, FileTime::now());
+                // Another process may have removed the object as unused before that.
+                if path.exists() {
+                    return Ok(id);
+                }
             }
             Err(err) if err.kind() == io::ErrorKind::NotFound => (),
             Err(err) => return Err(err.into()),
         }
 
         // The object only appears under its name once it is complete and on disk.
-        let (file, temp_path) = create_temp_file(&temp_dir)?;
+        let mut retries = 0..8;
+        let (file, temp_path) = loop {
+            match create_temp_file(&temp_dir) {
+                // Another process has just removed the directory, as it was empty.
+                Err(err) if err.kind() == io::ErrorKind::NotFound && retries.next().is_some() => {
+                    match fs_err::create_dir(&temp_dir) {
+                        Err(err) if err.kind() != io::ErrorKind::AlreadyExists => {
+                            return Err(err.into())
+                        }
+                        _ => (),
+                    }
+                }
+                result => break result?,
+            }
+        };
         let result = write_compressed(file, bytes).and_then(|()| fs_err::rename(&temp_path, &path));
         if let Err(err) = result {
             let _ = fs_err::remove_file(&temp_path);
-- 
2.43.0

