From 692f3f5474056a0ebc590d1e9618e1a5bb018884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 1/6] fix: record the offset of index blocks reloaded by
 relative moves

A relative move that crossed an index block replaced the block but kept the
offset of the previous one, so a later absolute move could skip reloading it
and answer from the wrong block.
---
 src/reader/reader_cursor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 94d6326..6282b09 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -350,7 +350,7 @@ impl IndexBlockCursor {
             FN: FnMut(&mut BlockCursor<Block>) -> Option<(&[u8], &[u8])>,
         {
             match blocks.split_last_mut() {
-                Some(((_offset, cursor), head)) => {
+                Some(((block_offset, cursor), head)) => {
                     match (mov)(cursor) {
                         Some((_key, _offset)) => Ok(cursor.current()),
                         None => {
@@ -365,6 +365,7 @@ impl IndexBlockCursor {
                                     reader.seek(SeekFrom::Start(offset))?;
                                     *cursor = Block::new(reader, compression_type)
                                         .map(Block::into_cursor)?;
+                                    *block_offset = offset;
 
                                     // We return the result of the call has is. If it returns None
                                     // it means we are not able to execute the `mov` function.
-- 
2.43.0


From 12b286df53da6b9143c3992a25f90061315a93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 2/6] fix: do not overflow when finishing a writer with 255
 index levels

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index ba45e39..1c5b401 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -289,7 +289,7 @@ impl<W: io::Write> Writer<W> {
             index_block_offset,
             compression_type: self.compression_type,
             entries_count: self.entries_count,
-            index_levels: self.index_block_writers.len() as u8 - 1,
+            index_levels: (self.index_block_writers.len() - 1) as u8,
         };
 
         metadata.write_into(&mut self.writer)?;
-- 
2.43.0


From 61e73b2ee8694c576ddbe9d8ff18a41166dfbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 3/6] fix: forward an invalid format version instead of
 panicking

A chunk storage that hands back bytes without a valid trailer made the sorter
panic when reopening the chunk.
---
 src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.rs b/src/error.rs
index 4933c30..bf18fa2 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,6 +19,7 @@ impl<U> Error<U> {
         match self {
             Error::Io(io) => Error::Io(io),
             Error::InvalidCompressionType => Error::InvalidCompressionType,
+            Error::InvalidFormatVersion => Error::InvalidFormatVersion,
             _ => panic!("cannot convert a merge error"),
         }
     }
-- 
2.43.0


From 704759c5c85a47a4de0615dba1a08ff523751fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 4/6] fix: clamp zlib levels the backend refuses

Levels above 10 made the deflate backend panic in debug builds.
---
 src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index 3575070..dac3de7 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -110,7 +110,7 @@ fn zlib_decompress<R: io::Read>(_data: R, _out: &mut Vec<u8>) -> io::Result<()>
 #[cfg(feature = "zlib")]
 fn zlib_compress(data: &[u8], level: u32) -> io::Result<Cow<[u8]>> {
     use std::io::Write;
-    let compression = flate2::Compression::new(level);
+    let compression = flate2::Compression::new(level.min(10));
     let mut encoder = flate2::write::ZlibEncoder::new(Vec::new(), compression);
     encoder.write_all(data)?;
     encoder.finish().map(Cow::Owned)
-- 
2.43.0


From e1e35f43af3c691a528d6dc1597f83629fda8e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 5/6] fix: refuse buffer sizes that overflow when rounded up

The wrapped size was zero in release builds, which is not a valid allocation.
---
 src/sorter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorter.rs b/src/sorter.rs
index 8a36dd6..e5f3bcd 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -386,7 +386,9 @@ impl EntryBoundAlignedBuffer {
     /// Allocates a new buffer of the given size, it is correctly aligned to store `EntryBound`s.
     fn new(size: usize) -> EntryBoundAlignedBuffer {
         let entry_bound_size = size_of::<EntryBound>();
-        let size = size.div_ceil(entry_bound_size) * entry_bound_size;
+        let size = size
+            .checked_next_multiple_of(entry_bound_size)
+            .expect("the requested buffer is too large");
         let layout = Layout::from_size_align(size, align_of::<EntryBound>()).unwrap();
         let ptr = unsafe { alloc(layout) };
         let Some(ptr) = NonNull::new(ptr) else {
-- 
2.43.0


From 3f3f1e93bb2fbca032363bc263b13efc714744d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 6/6] fix: keep lz4 block decoding independent of interrupted
 reads

The lz4 frame decoder reads the frame header in several calls and forgets what
it consumed when one of them is interrupted; the retry done by read_to_end then
fails with WrongMagicNumber. Load the compressed bytes first.
---
 src/compression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index dac3de7..81de236 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -202,9 +202,13 @@ fn zstd_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- lz4 ---------
 
 #[cfg(feature = "lz4")]
-fn lz4_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
+fn lz4_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
     use io::Read;
-    lz4_flex::frame::FrameDecoder::new(data).read_to_end(out).map(drop)
+    // The lz4 frame decoder loses its position in the frame header when a read
+    // is interrupted, so the compressed bytes are loaded before being decoded.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out).map(drop)
 }
 
 #[cfg(not(feature = "lz4"))]
-- 
2.43.0

