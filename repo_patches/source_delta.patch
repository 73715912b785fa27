From f9f49bd0f2f52097ba9520ced19cead0c4263413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 01/23] fix: call on_reconnect only when the reconnect attempt
 succeeded

---
 crates/stream-download/src/source/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 26b7764..c34396f 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -275,7 +275,9 @@ where
         // We already know there's a network issue if we're attempting a reconnect.
         // A retry policy on the client may cause an exponential backoff to be triggered here, so
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
-        let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
+        let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos))
+            .await
+            .unwrap_or_else(|e| Err(e.into()));
         if reconnect_pos
             .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
             .is_ok()
-- 
2.43.0


From 4eaf9abf9e64b3dee9b4b035e191ca552077f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 02/23] fix: reject seeks to a negative or overflowing position

---
 crates/stream-download/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 278dff4..13e4d6f 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -432,12 +432,12 @@ impl<P: StorageProvider> StreamDownload<P> {
             }
             SeekFrom::Current(position) => {
                 debug!(seek_position = position, "seeking from current position");
-                (self.output_reader.stream_position()? as i64 + position) as u64
+                checked_seek_position(self.output_reader.stream_position()?, position)?
             }
             SeekFrom::End(position) => {
                 debug!(seek_position = position, "seeking from end");
                 if let Some(length) = self.handle.content_length() {
-                    (length as i64 + position) as u64
+                    checked_seek_position(length, position)?
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
@@ -621,6 +621,15 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
     }
 }
 
+fn checked_seek_position(base: u64, offset: i64) -> io::Result<u64> {
+    base.checked_add_signed(offset).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "invalid seek to a negative or overflowing position",
+        )
+    })
+}
+
 pub(crate) trait WrapIoResult {
     fn wrap_err(self, msg: &str) -> Self;
 }
-- 
2.43.0


From 886facd35a6067f9d1e682fe294121a8fb9f632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 03/23] fix: wait_for_completion waits for the download task
 instead of its cancellation request

---
 crates/stream-download/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 13e4d6f..d873483 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -65,6 +65,7 @@ pub struct StreamDownload<P: StorageProvider> {
     output_reader: P::Reader,
     handle: SourceHandle,
     download_task_cancellation_token: CancellationToken,
+    download_finished: CancellationToken,
     cancel_on_drop: bool,
     content_length: Option<u64>,
     storage_capacity: Option<usize>,
@@ -373,7 +374,7 @@ impl<P: StorageProvider> StreamDownload<P> {
     /// the stream remotely.
     pub fn handle(&self) -> StreamHandle {
         StreamHandle {
-            finished: self.download_task_cancellation_token.clone(),
+            finished: self.download_finished.clone(),
         }
     }
 
@@ -401,15 +402,19 @@ impl<P: StorageProvider> StreamDownload<P> {
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
+        let download_finished = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
         let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
         let handle = source.source_handle();
 
         tokio::spawn({
             let cancellation_token = cancellation_token.clone();
+            // Cancels the token on drop so it's always triggered, even if the task is aborted
+            let finished_guard = download_finished.clone().drop_guard();
             async move {
                 source.download(stream).await;
                 cancellation_token.cancel();
+                drop(finished_guard);
                 debug!("download task finished");
             }
         });
@@ -418,6 +423,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             output_reader: reader,
             handle,
             download_task_cancellation_token: cancellation_token,
+            download_finished,
             cancel_on_drop,
             content_length,
             storage_capacity,
-- 
2.43.0


From aa174746b1778ae1e3734a8a1700a515444e1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 04/23] fix: don't stream the body of an HTTP error response
 after reconnecting

---
 crates/stream-download/src/http/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 07f2daf..b7b9bdf 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -350,6 +350,14 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 .await
                 .map_err(|e| io::Error::other(e.to_string()))
                 .wrap_err(&format!("error sending HTTP request to {}", self.url))?;
+            let response = match response.into_result() {
+                Ok(response) => response,
+                Err(e) => {
+                    let error = e.decode_error().await;
+                    return Err(io::Error::other(error))
+                        .wrap_err(&format!("error getting HTTP response from {}", self.url));
+                }
+            };
             self.stream = Box::new(response.stream());
             Ok(())
         }
-- 
2.43.0


From 0bef0b759783c7cbf30009ca84fbcc6243932611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 05/23] fix: resume at the current position when reconnecting
 to a server without range support

---
 crates/stream-download/src/http/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index b7b9bdf..a305686 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -37,7 +37,7 @@ use std::time::Instant;
 
 use bytes::Bytes;
 use educe::Educe;
-use futures_util::{Future, Stream};
+use futures_util::{Future, Stream, StreamExt};
 use mediatype::MediaTypeBuf;
 #[cfg(feature = "reqwest")]
 pub use reqwest;
@@ -358,7 +358,12 @@ impl<C: Client> SourceStream for HttpStream<C> {
                         .wrap_err(&format!("error getting HTTP response from {}", self.url));
                 }
             };
-            self.stream = Box::new(response.stream());
+            self.stream = if self.content_length.is_some() {
+                // The response starts over from the beginning of the content
+                Box::new(skip_bytes(response.stream(), current_position))
+            } else {
+                Box::new(response.stream())
+            };
             Ok(())
         }
     }
@@ -368,6 +373,19 @@ impl<C: Client> SourceStream for HttpStream<C> {
     }
 }
 
+fn skip_bytes<E>(
+    stream: impl Stream<Item = Result<Bytes, E>> + Unpin + Send + Sync,
+    mut skip: u64,
+) -> impl Stream<Item = Result<Bytes, E>> + Unpin + Send + Sync {
+    stream.map(move |item| {
+        item.map(|mut bytes| {
+            let skipped = skip.min(bytes.len() as u64);
+            skip -= skipped;
+            bytes.split_off(skipped as usize)
+        })
+    })
+}
+
 /// HTTP range header key
 pub const RANGE_HEADER_KEY: &str = "Range";
 
-- 
2.43.0


From a00015d54b37da3387bcc3f3730f163b29e77d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 06/23] fix: don't panic when the source returns an empty chunk

---
 crates/stream-download/src/source/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index c34396f..3a705f0 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -515,10 +515,11 @@ where
             stream,
             StreamState {
                 current_position: pos,
+                // nothing may have been written yet if the source returned an empty chunk
                 current_chunk: self
                     .downloaded
-                    .get(new_position - 1)
-                    .expect("position already downloaded"),
+                    .get(new_position.max(1) - 1)
+                    .unwrap_or_default(),
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Downloading { chunk_size },
             },
-- 
2.43.0


From cafb084418218efbec565c89a2858fdc2bb99768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 07/23] fix: memory storage reads never go past the written
 data

---
 crates/stream-download/src/storage/memory.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 09aa7f3..9d09cf6 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -53,6 +53,7 @@ impl StorageProvider for MemoryStorageProvider {
 pub struct MemoryStorage {
     inner: Arc<AssertUnwindSafe<RwLock<Vec<u8>>>>,
     position: usize,
+    // end of the furthest write, the buffer itself may be larger
     written: Arc<AtomicUsize>,
 }
 
@@ -60,9 +61,15 @@ impl Read for MemoryStorage {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let inner = self.inner.read();
 
-        let available_len =
-            (inner.len().saturating_sub(self.position)).min(self.written.load(Ordering::SeqCst));
+        let available_len = self
+            .written
+            .load(Ordering::SeqCst)
+            .saturating_sub(self.position);
         let read_len = available_len.min(buf.len());
+        if read_len == 0 {
+            // the position may be past the end of the buffer
+            return Ok(0);
+        }
         buf[..read_len].copy_from_slice(&inner[self.position..self.position + read_len]);
         self.position += read_len;
         Ok(read_len)
@@ -94,7 +101,7 @@ impl Write for MemoryStorage {
         inner[self.position..self.position + buf.len()].copy_from_slice(buf);
 
         self.position += buf.len();
-        self.written.fetch_add(buf.len(), Ordering::SeqCst);
+        self.written.fetch_max(self.position, Ordering::SeqCst);
         Ok(buf.len())
     }
 
-- 
2.43.0


From ecd833e2275fdc0757aeb8574beba853ffffe8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 08/23] fix: reject negative seek positions in memory and
 bounded storage

---
 crates/stream-download/src/lib.rs             | 2 +-
 crates/stream-download/src/storage/bounded.rs | 6 ++++--
 crates/stream-download/src/storage/memory.rs  | 8 +++++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index d873483..d55bce9 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -627,7 +627,7 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
     }
 }
 
-fn checked_seek_position(base: u64, offset: i64) -> io::Result<u64> {
+pub(crate) fn checked_seek_position(base: u64, offset: i64) -> io::Result<u64> {
     base.checked_add_signed(offset).ok_or_else(|| {
         io::Error::new(
             io::ErrorKind::InvalidInput,
diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 9ee8035..27d8c02 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -29,7 +29,7 @@ use parking_lot::Mutex;
 use tracing::{debug, instrument, trace, warn};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
-use crate::WrapIoResult;
+use crate::{WrapIoResult, checked_seek_position};
 
 /// Creates a [`BoundedStorageReader`] with a fixed size.
 #[derive(Clone, Debug)]
@@ -251,7 +251,9 @@ where
 fn handle_seek(position: SeekFrom, current_position: usize) -> io::Result<usize> {
     match position {
         SeekFrom::Start(position) => Ok(position as usize),
-        SeekFrom::Current(from_current) => Ok((current_position as i64 + from_current) as usize),
+        SeekFrom::Current(from_current) => {
+            Ok(checked_seek_position(current_position as u64, from_current)? as usize)
+        }
         SeekFrom::End(_) => Err(io::Error::new(
             io::ErrorKind::Unsupported,
             "seek from end not supported",
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 9d09cf6..b7def07 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -10,7 +10,7 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use parking_lot::RwLock;
 
 use super::StorageProvider;
-use crate::WrapIoResult;
+use crate::{WrapIoResult, checked_seek_position};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
 #[derive(Default, Clone, Debug)]
@@ -81,8 +81,10 @@ impl Seek for MemoryStorage {
         let len = self.inner.read().len();
         let new_position = match position {
             SeekFrom::Start(position) => position as usize,
-            SeekFrom::Current(from_current) => (self.position as i64 + from_current) as usize,
-            SeekFrom::End(from_end) => (len as i64 + from_end) as usize,
+            SeekFrom::Current(from_current) => {
+                checked_seek_position(self.position as u64, from_current)? as usize
+            }
+            SeekFrom::End(from_end) => checked_seek_position(len as u64, from_end)? as usize,
         };
 
         self.position = new_position;
-- 
2.43.0


From 14b833e40a8e8e7e77c646d3e0f2d9dc21381e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 09/23] fix: track which positions bounded storage holds
 instead of counting bytes

---
 crates/stream-download/src/storage/bounded.rs | 39 ++++++++-----------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 27d8c02..c13ed13 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -21,12 +21,13 @@
 use std::fmt::Debug;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 use std::num::NonZeroUsize;
+use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 
 use educe::Educe;
 use parking_lot::Mutex;
-use tracing::{debug, instrument, trace, warn};
+use tracing::{instrument, trace};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
 use crate::{WrapIoResult, checked_seek_position};
@@ -90,8 +91,7 @@ where
             ))?;
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
-            read: 0,
-            written: 0,
+            held: 0..0,
             read_position: 0,
             write_position: 0,
             size: buffer_size,
@@ -110,8 +110,9 @@ where
 
 #[derive(Debug)]
 struct SharedInfo {
-    read: usize,
-    written: usize,
+    // Positions that are still present in the buffer. Everything before the start has been
+    // overwritten and nothing past the end has been written.
+    held: Range<usize>,
     read_position: usize,
     write_position: usize,
     size: usize,
@@ -159,10 +160,11 @@ where
         }
 
         let available_len = shared_info
-            .write_position
+            .held
+            .end
             .saturating_sub(shared_info.read_position);
 
-        if available_len > shared_info.size {
+        if shared_info.read_position < shared_info.held.start {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
@@ -172,12 +174,7 @@ where
             ));
         }
 
-        if shared_info.read >= shared_info.written {
-            debug!("read bytes >= written bytes, ending read");
-            return Ok(0);
-        }
-
-        let size = shared_info.size.min(shared_info.write_position);
+        let size = shared_info.size;
         let available_buf_size = available_len.min(buf.len());
 
         trace!(buf_len = buf.len(), "original buf len");
@@ -195,7 +192,6 @@ where
             end,
             size,
             buf_len = buf.len(),
-            read = shared_info.read,
             "bounded read"
         );
 
@@ -224,7 +220,6 @@ where
 
         let buf_len = buf.len();
         shared_info.read_position += buf_len;
-        shared_info.read += buf_len;
 
         Ok(buf_len)
     }
@@ -239,10 +234,6 @@ where
         trace!("reader seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.read_position)?;
-        // If we performed a backwards seek,we need to adjust the absolute read position.
-        // Otherwise, if we've moved the read position back, but keep incrementing the
-        // read counter, it may look like we've read more bytes than we've written.
-        shared_info.read -= shared_info.read_position.saturating_sub(new_position);
         shared_info.read_position = new_position;
         Ok(new_position as u64)
     }
@@ -298,7 +289,6 @@ where
             start,
             end,
             buf_len = buf.len(),
-            written = shared_info.written,
             "bounded write"
         );
 
@@ -324,7 +314,9 @@ where
 
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
-        shared_info.written += buf_len;
+        let held_end = shared_info.held.end.max(shared_info.write_position);
+        let held_start = held_end.saturating_sub(shared_info.size);
+        shared_info.held = shared_info.held.start.max(held_start)..held_end;
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -345,7 +337,10 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        shared_info.written -= shared_info.write_position.saturating_sub(new_position);
+        if new_position < shared_info.held.start {
+            // Everything written from here on replaces what's currently in the buffer
+            shared_info.held = new_position..new_position;
+        }
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From 4092518415620eaedbd65582b1c82da87554b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 10/23] fix: seek to the gap at the requested position instead
 of an inverted range

---
 crates/stream-download/src/source/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 3a705f0..4bf2920 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -248,20 +248,22 @@ where
                 self.prefetch_complete = true;
             }
             if let Some(content_length) = self.content_length {
-                // Get the minimum possible start position to ensure we capture the entire range
-                let min_start_position = current_stream_position.min(position);
                 debug!(
-                    start = min_start_position,
+                    start = position,
                     end = content_length,
                     "checking for seek range",
                 );
-                if let Some(gap) = self.downloaded.next_gap(min_start_position..content_length) {
-                    // Gap start may be too low if we're seeking forward, so check it against the
-                    // position
-                    let seek_start = gap.start.max(position);
-                    debug!(seek_start, seek_end = gap.end, "requesting seek range");
-                    self.seek(stream, seek_start, Some(gap.end)).await?;
-                }
+                // There's nothing left to request if everything after the position is downloaded
+                let gap = self
+                    .downloaded
+                    .next_gap(position..content_length)
+                    .unwrap_or(content_length..content_length);
+                debug!(
+                    seek_start = gap.start,
+                    seek_end = gap.end,
+                    "requesting seek range"
+                );
+                self.seek(stream, gap.start, Some(gap.end)).await?;
             } else {
                 self.seek(stream, position, None).await?;
             }
-- 
2.43.0


From 4e836a180d058191ea26a38c3f26667edb989452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 11/23] fix: temp storage reads no longer return stale buffered
 data

---
 crates/stream-download/src/storage/temp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/storage/temp.rs b/crates/stream-download/src/storage/temp.rs
index 8e724ec..abb7e79 100644
--- a/crates/stream-download/src/storage/temp.rs
+++ b/crates/stream-download/src/storage/temp.rs
@@ -5,7 +5,7 @@
 use std::ffi::OsString;
 use std::fmt::Debug;
 use std::fs::File;
-use std::io::{self, BufReader, Read, Seek};
+use std::io::{self, Read, Seek};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -125,7 +125,8 @@ impl StorageProvider for TempStorageProvider {
 
         let handle = tempfile.reopen().wrap_err("error reopening temp file")?;
         let reader = TempStorageReader {
-            reader: BufReader::new(tempfile),
+            // Not buffered because the file may be written to at any position after it's been read
+            reader: tempfile,
         };
         let writer = handle
             .try_clone()
@@ -137,7 +138,7 @@ impl StorageProvider for TempStorageProvider {
 /// Reader created by a [`TempStorageProvider`]. Reads from a temporary file.
 #[derive(Debug)]
 pub struct TempStorageReader {
-    reader: BufReader<NamedTempFile>,
+    reader: NamedTempFile,
 }
 
 impl Read for TempStorageReader {
-- 
2.43.0


From eeba0057730fb38f0230bca8ba404cd946a26573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 12/23] fix: apply the capacity of the bounded storage used by
 adaptive storage

---
 crates/stream-download/src/lib.rs              |  2 +-
 crates/stream-download/src/storage/adaptive.rs | 12 ++++++++++++
 crates/stream-download/src/storage/mod.rs      |  6 ++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index d55bce9..e58d836 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -397,7 +397,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             .await
             .map_err(StreamInitializationError::StreamCreationFailure)?;
         let content_length = stream.content_length();
-        let storage_capacity = storage_provider.max_capacity();
+        let storage_capacity = storage_provider.max_capacity_for_length(content_length);
         let (reader, writer) = storage_provider
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
diff --git a/crates/stream-download/src/storage/adaptive.rs b/crates/stream-download/src/storage/adaptive.rs
index 2da8418..69917d9 100644
--- a/crates/stream-download/src/storage/adaptive.rs
+++ b/crates/stream-download/src/storage/adaptive.rs
@@ -104,6 +104,18 @@ where
     type Reader = AdaptiveStorageReader<F::Reader, V::Reader>;
     type Writer = AdaptiveStorageWriter<F::Writer, V::Writer>;
 
+    fn max_capacity_for_length(&self, content_length: Option<u64>) -> Option<usize> {
+        match content_length {
+            None => Some(self.buffer_size.get()),
+            Some(length) if length <= self.buffer_size.get() as u64 => {
+                self.fixed_storage.max_capacity_for_length(content_length)
+            }
+            Some(_) => self
+                .variable_storage
+                .max_capacity_for_length(content_length),
+        }
+    }
+
     fn into_reader_writer(
         self,
         content_length: Option<u64>,
diff --git a/crates/stream-download/src/storage/mod.rs b/crates/stream-download/src/storage/mod.rs
index ea41bf5..5fc2de7 100644
--- a/crates/stream-download/src/storage/mod.rs
+++ b/crates/stream-download/src/storage/mod.rs
@@ -28,6 +28,12 @@ pub trait StorageProvider: Send {
     fn max_capacity(&self) -> Option<usize> {
         None
     }
+
+    /// Returns the maximum number of bytes this provider can hold at a time for a stream with the
+    /// given content length.
+    fn max_capacity_for_length(&self, _content_length: Option<u64>) -> Option<usize> {
+        self.max_capacity()
+    }
 }
 
 /// Trait used to read from a storage layer
-- 
2.43.0


From b5bce2a3e80dbab08cfd3d4d7e73ec552064dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 13/23] fix: release the reader when the download task panics
 or is dropped

---
 crates/stream-download/src/source/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 4bf2920..a096f29 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -131,6 +131,17 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     prefetch_start_position: u64,
     remaining_bytes: Option<Bytes>,
     cancellation_token: CancellationToken,
+    finished: bool,
+}
+
+impl<S: SourceStream, W: StorageWriter> Drop for Source<S, W> {
+    fn drop(&mut self) {
+        // Release the reader if the task panicked or was dropped before the download finished
+        if !self.finished {
+            self.download_status.set_failed();
+        }
+        self.position_reached.notify_stream_done();
+    }
 }
 
 impl<S, W> Source<S, W>
@@ -166,6 +177,7 @@ where
             prefetch_start_position: 0,
             remaining_bytes: None,
             cancellation_token,
+            finished: false,
         }
     }
 
@@ -190,6 +202,7 @@ where
             }
             self.download_status.set_failed();
         }
+        self.finished = true;
         self.signal_download_complete();
     }
 
-- 
2.43.0


From 356b75a4cd932eee342f083098ba4afec0ae9e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 14/23] fix: wait for the exact requested range instead of the
 write position

---
 crates/stream-download/src/lib.rs           |  43 +++++--
 crates/stream-download/src/source/handle.rs | 125 ++++++++++++--------
 crates/stream-download/src/source/mod.rs    | 101 ++++++++++------
 3 files changed, 169 insertions(+), 100 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index e58d836..199dab0 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -454,8 +454,22 @@ impl<P: StorageProvider> StreamDownload<P> {
         })
     }
 
-    fn handle_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let res = self.output_reader.read(buf).inspect(|l| {
+    fn handle_read(&mut self, buf: &mut [u8], stream_position: u64) -> io::Result<usize> {
+        let Some(available) = self.handle.get_downloaded_at_position(stream_position) else {
+            // The download is done without reaching this position
+            return if self.handle.is_downloaded_after(stream_position) {
+                Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("position {stream_position} is not available"),
+                ))
+            } else {
+                Ok(0)
+            };
+        };
+        // The storage may contain anything outside of the downloaded range
+        let available_len = usize::try_from(available.end - stream_position).unwrap_or(usize::MAX);
+        let read_len = buf.len().min(available_len);
+        let res = self.output_reader.read(&mut buf[..read_len]).inspect(|l| {
             trace!(read_length = format!("{l:?}"), "returning read");
         });
         self.handle.notify_read();
@@ -558,9 +572,13 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
         self.check_for_excessive_read(buf.len())?;
 
         trace!(buffer_length = buf.len(), "read requested");
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let stream_position = self.output_reader.stream_position()?;
-        let requested_position =
-            self.normalize_requested_position(stream_position + buf.len() as u64);
+        let requested_position = self
+            .normalize_requested_position(stream_position.saturating_add(buf.len() as u64))
+            .max(stream_position);
         trace!(
             current_position = stream_position,
             requested_position = requested_position
@@ -573,14 +591,15 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             );
             if closest_set.end >= requested_position {
                 trace!("requested position already downloaded");
-                return self.handle_read(buf);
+                return self.handle_read(buf, stream_position);
             }
             debug!("requested position not yet downloaded");
         } else {
             debug!("stream position not yet downloaded");
         }
 
-        self.handle.wait_for_position(requested_position);
+        self.handle
+            .wait_for_range(stream_position..requested_position);
         self.check_for_failure()?;
         debug!(
             current_position = stream_position,
@@ -589,7 +608,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             "reached requested position"
         );
 
-        self.handle_read(buf)
+        self.handle_read(buf, stream_position)
     }
 }
 
@@ -617,13 +636,17 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
                 .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
         }
 
+        // Move the reader first so the data before the new position can be overwritten if the
+        // storage is full
+        let position = self
+            .output_reader
+            .seek(SeekFrom::Start(absolute_seek_position))
+            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))?;
         self.handle.seek(absolute_seek_position);
         self.check_for_failure()?;
         debug!("reached seek position");
 
-        self.output_reader
-            .seek(SeekFrom::Start(absolute_seek_position))
-            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))
+        Ok(position)
     }
 }
 
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8bdb92b..44fc97c 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -1,15 +1,15 @@
 use std::fmt::Debug;
+use std::mem;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
 use rangemap::RangeSet;
-use tokio::sync::mpsc::error::TrySendError;
-use tokio::sync::{Notify, mpsc};
-use tracing::{debug, error};
+use tokio::sync::Notify;
+use tracing::debug;
 
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
@@ -18,7 +18,6 @@ pub(crate) struct SourceHandle {
     pub(super) requested_position: RequestedPosition,
     pub(super) position_reached: PositionReached,
     pub(super) content_length: Option<u64>,
-    pub(super) seek_tx: mpsc::Sender<u64>,
     pub(super) notify_read: NotifyRead,
 }
 
@@ -27,24 +26,38 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    pub(crate) fn wait_for_position(&self, requested_position: u64) {
-        self.request_position(requested_position);
-        debug!(
-            requested_position = requested_position,
-            "waiting for requested position"
-        );
-        self.notify_read.notify_waiting();
-        self.position_reached.wait_for_position_reached();
+    /// Waits until the whole range is downloaded or the download is done.
+    pub(crate) fn wait_for_range(&self, requested_range: Range<u64>) {
+        self.wait_for_request(requested_range, false);
     }
 
+    /// Like [`Self::wait_for_range`], but restarts the stream at the seek position.
     pub(crate) fn seek(&self, seek_position: u64) {
-        self.request_position(seek_position);
-        self.request_seek(seek_position);
-        debug!(
-            requested_position = seek_position,
-            "waiting for requested position"
-        );
-        self.position_reached.wait_for_position_reached();
+        self.wait_for_request(seek_position..seek_position.saturating_add(1), true);
+    }
+
+    fn wait_for_request(&self, requested_range: Range<u64>, mut restart: bool) {
+        while !self.downloaded.contains(&requested_range) {
+            self.requested_position
+                .set(requested_range.clone(), mem::take(&mut restart));
+            // The range may have been downloaded just before it was requested
+            if self.requested_position.clear_if_reached(&self.downloaded) {
+                return;
+            }
+            debug!(
+                requested_range = format!("{requested_range:?}"),
+                "waiting for requested position"
+            );
+            self.notify_read.notify_waiting();
+            if self.position_reached.wait_for_position_reached() {
+                return;
+            }
+        }
+    }
+
+    /// Whether there's any data after a position that's not downloaded.
+    pub(crate) fn is_downloaded_after(&self, position: u64) -> bool {
+        self.downloaded.any_after(position)
     }
 
     pub(crate) fn notify_read(&self) {
@@ -58,46 +71,43 @@ impl SourceHandle {
     pub(crate) fn is_failed(&self) -> bool {
         self.download_status.is_failed()
     }
+}
 
-    fn request_position(&self, position: u64) {
-        self.requested_position.set(position);
-    }
-
-    fn request_seek(&self, position: u64) {
-        self.seek_tx
-            .try_send(position)
-            .inspect_err(|e| {
-                if let TrySendError::Full(_) = e {
-                    error!("Sent multiple seek requests without waiting");
-                }
-            })
-            .ok();
-    }
+/// The range that the reader is currently waiting for.
+#[derive(Default, Debug, Clone)]
+pub(super) struct RequestedPosition {
+    range: Arc<AssertUnwindSafe<Mutex<Option<Range<u64>>>>>,
+    restart: Arc<AtomicBool>,
+    changed: Arc<Notify>,
 }
 
-#[derive(Debug, Clone)]
-pub(super) struct RequestedPosition(Arc<AtomicI64>);
+impl RequestedPosition {
+    /// Clears the request if it's fully downloaded.
+    pub(super) fn clear_if_reached(&self, downloaded: &Downloaded) -> bool {
+        self.range
+            .lock()
+            .take_if(|range| downloaded.contains(range))
+            .is_some()
+    }
 
-impl Default for RequestedPosition {
-    fn default() -> Self {
-        Self(Arc::new(AtomicI64::new(-1)))
+    pub(super) fn get(&self) -> Option<Range<u64>> {
+        self.range.lock().clone()
     }
-}
 
-// relaxed ordering as we are not using the atomic to
-// lock something or to synchronize threads.
-impl RequestedPosition {
-    pub(super) fn clear(&self) {
-        self.0.store(-1, Ordering::Relaxed);
+    /// Whether the stream should be restarted, only true once per request.
+    pub(super) fn take_restart(&self) -> bool {
+        self.restart.swap(false, Ordering::SeqCst)
     }
 
-    pub(super) fn get(&self) -> Option<u64> {
-        let val = self.0.load(Ordering::Relaxed);
-        if val == -1 { None } else { Some(val as u64) }
+    fn set(&self, range: Range<u64>, restart: bool) {
+        // Needs to be set before the range is visible to the download task
+        self.restart.store(restart, Ordering::SeqCst);
+        *self.range.lock() = Some(range);
+        self.changed.notify_one();
     }
 
-    fn set(&self, position: u64) {
-        self.0.store(position as i64, Ordering::Relaxed);
+    pub(super) async fn changed(&self) {
+        self.changed.notified().await;
     }
 }
 
@@ -127,11 +137,12 @@ impl PositionReached {
         cvar.notify_all();
     }
 
-    fn wait_for_position_reached(&self) {
+    /// Returns whether the stream is done.
+    fn wait_for_position_reached(&self) -> bool {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
         if waiter.stream_done {
-            return;
+            return true;
         }
 
         let wait_start = Instant::now();
@@ -146,6 +157,7 @@ impl PositionReached {
         if !waiter.stream_done {
             waiter.position_reached = false;
         }
+        waiter.stream_done
     }
 }
 
@@ -164,6 +176,15 @@ impl Downloaded {
         self.0.read().get(&position).cloned()
     }
 
+    pub(super) fn contains(&self, range: &Range<u64>) -> bool {
+        self.get(range.start)
+            .is_some_and(|downloaded| downloaded.end >= range.end)
+    }
+
+    fn any_after(&self, position: u64) -> bool {
+        self.0.read().iter().any(|range| range.start > position)
+    }
+
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
         self.0.read().gaps(&range).next()
     }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index a096f29..8ac5f78 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -13,9 +13,8 @@ use futures_util::{Future, Stream, StreamExt, TryStream};
 use handle::{
     DownloadStatus, Downloaded, NotifyRead, PositionReached, RequestedPosition, SourceHandle,
 };
-use tokio::sync::mpsc;
 use tokio::task::yield_now;
-use tokio::time::timeout;
+use tokio::time::{Instant as TokioInstant, timeout};
 use tokio_util::sync::CancellationToken;
 use tracing::{debug, error, instrument, trace, warn};
 
@@ -120,8 +119,6 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
-    seek_tx: mpsc::Sender<u64>,
-    seek_rx: mpsc::Receiver<u64>,
     prefetch_bytes: u64,
     batch_write_size: usize,
     retry_timeout: Duration,
@@ -155,9 +152,6 @@ where
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
-        // buffer size of 1 is fine here because we wait for the position to update after we send
-        // each request
-        let (seek_tx, seek_rx) = mpsc::channel(1);
         Self {
             writer,
             downloaded: Downloaded::default(),
@@ -165,8 +159,6 @@ where
             requested_position: RequestedPosition::default(),
             position_reached: PositionReached::default(),
             notify_read: NotifyRead::default(),
-            seek_tx,
-            seek_rx,
             content_length,
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
@@ -209,19 +201,23 @@ where
     async fn download_inner(&mut self, stream: &mut S) -> io::Result<StreamOutcome> {
         debug!("starting file download");
         let download_start = std::time::Instant::now();
+        let mut idle_start = TokioInstant::now();
 
         loop {
             // Some streams may get stuck if the connection has a hiccup while waiting for the next
             // chunk. Forcing the client to abort and retry may help in these cases.
-            let next_chunk = timeout(self.retry_timeout, stream.next());
+            let remaining_timeout = self.retry_timeout.saturating_sub(idle_start.elapsed());
+            let next_chunk = timeout(remaining_timeout, stream.next());
             tokio::select! {
-                position = self.seek_rx.recv() => {
-                    // seek_tx can't be dropped here since we keep a reference in this struct
-                    self.handle_seek(stream, position.expect("seek_tx dropped")).await?;
+                () = self.requested_position.changed() => {
+                    if self.handle_request(stream).await? {
+                        idle_start = TokioInstant::now();
+                    }
                 },
                 bytes = next_chunk => {
                     let Ok(bytes) = bytes else {
                         self.handle_reconnect(stream).await?;
+                        idle_start = TokioInstant::now();
                         continue;
                     };
                     if self
@@ -235,6 +231,7 @@ where
                         );
                         break;
                     }
+                    idle_start = TokioInstant::now();
                 }
                 () = self.cancellation_token.cancelled() => {
                     debug!("received cancellation request, stopping download task");
@@ -246,8 +243,31 @@ where
         Ok(StreamOutcome::Completed)
     }
 
-    async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<()> {
-        if self.should_seek(stream, position)? {
+    /// Ensures the requested range will be downloaded, returns whether this required a seek.
+    async fn handle_request(&mut self, stream: &mut S) -> io::Result<bool> {
+        self.notify_if_reached();
+        let Some(requested) = self.requested_position.get() else {
+            return Ok(false);
+        };
+        if requested.is_empty() {
+            // Waiting for the end of the stream
+            return Ok(false);
+        }
+        let position = self
+            .downloaded
+            .get(requested.start)
+            .map_or(requested.start, |range| range.end);
+        let restart = self.requested_position.take_restart();
+        self.handle_seek(stream, position, restart).await
+    }
+
+    async fn handle_seek(
+        &mut self,
+        stream: &mut S,
+        position: u64,
+        restart: bool,
+    ) -> io::Result<bool> {
+        if self.should_seek(stream, position, restart)? {
             debug!("seek position not yet downloaded");
             let current_stream_position = self.writer.stream_position()?;
             if self.prefetch_complete {
@@ -280,8 +300,9 @@ where
             } else {
                 self.seek(stream, position, None).await?;
             }
+            return Ok(true);
         }
-        Ok(())
+        Ok(false)
     }
 
     async fn handle_reconnect(&mut self, stream: &mut S) -> io::Result<()> {
@@ -317,6 +338,7 @@ where
             self.writer.flush()?;
             let position = self.writer.stream_position()?;
             self.downloaded.add(start_position..position);
+            self.notify_if_reached();
 
             return self.finish_or_find_next_gap(stream).await;
         };
@@ -337,6 +359,7 @@ where
         }
         if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
             self.downloaded.add(start_position..stream_position);
+            self.notify_if_reached();
             debug!("prefetch complete");
             self.prefetch_complete = true;
         }
@@ -349,7 +372,13 @@ where
         if stream.supports_seek()
             && let Some(content_length) = self.content_length
         {
-            let gap = self.downloaded.next_gap(0..content_length);
+            // Prioritize what the reader is waiting for
+            let requested = self.requested_position.get().unwrap_or_default();
+            let gap = self
+                .downloaded
+                .next_gap(requested.start..content_length)
+                .filter(|gap| gap.start < requested.end)
+                .or_else(|| self.downloaded.next_gap(0..content_length));
             if let Some(gap) = gap {
                 debug!(
                     missing = format!("{gap:?}"),
@@ -438,20 +467,7 @@ where
             if new_position > position {
                 self.downloaded.add(position..new_position);
             }
-
-            if let Some(requested) = self.requested_position.get() {
-                debug!(
-                    requested_position = requested,
-                    current_position = new_position,
-                    "received requested position"
-                );
-
-                if new_position >= requested {
-                    debug!("notifying position reached");
-                    self.requested_position.clear();
-                    self.position_reached.notify_position_reached();
-                }
-            }
+            self.notify_if_reached();
             if new_written == 0 {
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
@@ -469,16 +485,26 @@ where
         Ok(new_position)
     }
 
-    fn should_seek(&mut self, stream: &S, position: u64) -> io::Result<bool> {
+    fn should_seek(&mut self, stream: &S, position: u64, restart: bool) -> io::Result<bool> {
         if !stream.supports_seek() {
             warn!("Attempting to seek, but it's unsupported. Waiting for stream to catch up.");
             return Ok(false);
         }
-        Ok(if let Some(range) = self.downloaded.get(position) {
-            !range.contains(&self.writer.stream_position()?)
-        } else {
-            true
-        })
+        let current_position = self.writer.stream_position()?;
+        if !self.prefetch_complete
+            && (self.prefetch_start_position..current_position).contains(&position)
+        {
+            // Already received, will be available once the prefetch completes
+            return Ok(false);
+        }
+        Ok(restart || position != current_position)
+    }
+
+    fn notify_if_reached(&self) {
+        if self.requested_position.clear_if_reached(&self.downloaded) {
+            debug!("notifying position reached");
+            self.position_reached.notify_position_reached();
+        }
     }
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
@@ -564,7 +590,6 @@ where
             requested_position: self.requested_position.clone(),
             notify_read: self.notify_read.clone(),
             position_reached: self.position_reached.clone(),
-            seek_tx: self.seek_tx.clone(),
             content_length: self.content_length,
         }
     }
-- 
2.43.0


From 4d8f719cb188c5458d5eaa73ea5798f1519cd514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 15/23] fix: handle requests while waiting for space and don't
 keep stale remaining bytes

---
 crates/stream-download/src/source/mod.rs | 60 +++++++++++++++---------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 8ac5f78..7bb26ff 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -8,7 +8,7 @@ use std::future;
 use std::io::{self, SeekFrom};
 use std::time::{Duration, Instant};
 
-use bytes::{BufMut, Bytes, BytesMut};
+use bytes::Bytes;
 use futures_util::{Future, Stream, StreamExt, TryStream};
 use handle::{
     DownloadStatus, Downloaded, NotifyRead, PositionReached, RequestedPosition, SourceHandle,
@@ -126,7 +126,6 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     on_reconnect: Option<ReconnectFn<S>>,
     prefetch_complete: bool,
     prefetch_start_position: u64,
-    remaining_bytes: Option<Bytes>,
     cancellation_token: CancellationToken,
     finished: bool,
 }
@@ -167,7 +166,6 @@ where
             on_progress: settings.on_progress,
             on_reconnect: settings.on_reconnect,
             prefetch_start_position: 0,
-            remaining_bytes: None,
             cancellation_token,
             finished: false,
         }
@@ -355,7 +353,6 @@ where
                 bytes_len = bytes.len(),
                 "failed to write all during prefetch"
             );
-            self.remaining_bytes = Some(bytes.slice(written..));
         }
         if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
             self.downloaded.add(start_position..stream_position);
@@ -365,6 +362,10 @@ where
         }
 
         self.report_prefetch_progress(stream, stream_position, download_start, written);
+        if partial_write {
+            self.handle_downloaded(stream, bytes.slice(written..), download_start)
+                .await?;
+        }
         Ok(DownloadAction::Continue)
     }
 
@@ -428,27 +429,31 @@ where
                 .await;
         }
 
-        let bytes = match (self.remaining_bytes.take(), bytes) {
-            (Some(remaining), Some(bytes)) => {
-                let mut combined = BytesMut::new();
-                combined.put(remaining);
-                combined.put(bytes);
-                combined.freeze()
-            }
-            (Some(remaining), None) => remaining,
-            (None, Some(bytes)) => bytes,
-            (None, None) => {
-                return self.finish_or_find_next_gap(stream).await;
-            }
+        let Some(bytes) = bytes else {
+            return self.finish_or_find_next_gap(stream).await;
         };
-        let bytes_len = bytes.len();
-        let new_position = self.write(bytes).await?;
-        self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        self.handle_downloaded(stream, bytes, download_start)
+            .await?;
 
         Ok(DownloadAction::Continue)
     }
 
-    async fn write(&mut self, bytes: Bytes) -> io::Result<u64> {
+    async fn handle_downloaded(
+        &mut self,
+        stream: &mut S,
+        bytes: Bytes,
+        download_start: Instant,
+    ) -> io::Result<()> {
+        let bytes_len = bytes.len();
+        if let Some(new_position) = self.write(stream, bytes).await? {
+            self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        }
+        Ok(())
+    }
+
+    /// Returns the new position, or `None` if the stream was repositioned before all of the bytes
+    /// were written.
+    async fn write(&mut self, stream: &mut S, bytes: Bytes) -> io::Result<Option<u64>> {
         let mut written = 0;
         let position = self.writer.stream_position()?;
         let mut new_position = position;
@@ -471,8 +476,17 @@ where
             if new_written == 0 {
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
-                self.notify_read.wait_for_read().await;
-                debug!("read finished");
+                tokio::select! {
+                    () = self.notify_read.wait_for_read() => {
+                        debug!("read finished");
+                    }
+                    () = self.requested_position.changed() => {
+                        if self.handle_request(stream).await? {
+                            debug!("seeked while waiting for next read");
+                            return Ok(None);
+                        }
+                    }
+                }
             }
 
             trace!(
@@ -482,7 +496,7 @@ where
                 "received response chunk"
             );
         }
-        Ok(new_position)
+        Ok(Some(new_position))
     }
 
     fn should_seek(&mut self, stream: &S, position: u64, restart: bool) -> io::Result<bool> {
-- 
2.43.0


From b241941a8934385af42a9e5e08e2cb72f10ae52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 16/23] fix: make every step of the download task cancellable

---
 crates/stream-download/src/source/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 7bb26ff..9f14d9f 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -173,7 +173,16 @@ where
 
     #[instrument(skip_all)]
     pub(crate) async fn download(&mut self, mut stream: S) {
-        let res = self.download_inner(&mut stream).await;
+        let cancellation_token = self.cancellation_token.clone();
+        // Any await point may get stuck, such as waiting for the reader when the storage is full
+        let res = tokio::select! {
+            biased;
+            () = cancellation_token.cancelled() => {
+                debug!("received cancellation request, stopping download task");
+                Ok(StreamOutcome::CancelledByUser)
+            }
+            res = self.download_inner(&mut stream) => res,
+        };
         let (res, stream_res) = match res {
             Ok(StreamOutcome::Completed) => (Ok(()), StreamOutcome::Completed),
             Ok(StreamOutcome::CancelledByUser) => (
@@ -202,6 +211,10 @@ where
         let mut idle_start = TokioInstant::now();
 
         loop {
+            // The source may always be ready
+            if self.cancellation_token.is_cancelled() {
+                return Ok(StreamOutcome::CancelledByUser);
+            }
             // Some streams may get stuck if the connection has a hiccup while waiting for the next
             // chunk. Forcing the client to abort and retry may help in these cases.
             let remaining_timeout = self.retry_timeout.saturating_sub(idle_start.elapsed());
@@ -231,10 +244,6 @@ where
                     }
                     idle_start = TokioInstant::now();
                 }
-                () = self.cancellation_token.cancelled() => {
-                    debug!("received cancellation request, stopping download task");
-                    return Ok(StreamOutcome::CancelledByUser);
-                }
             };
         }
         self.report_download_complete(stream, download_start)?;
-- 
2.43.0


From bfb6ae2d0e83217aa23e65636389bf4a714664fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 17/23] fix: don't lose data when the stream seeks and the
 storage can't hold everything

---
 crates/stream-download/src/lib.rs           |  8 +++++++-
 crates/stream-download/src/source/handle.rs |  4 ++++
 crates/stream-download/src/source/mod.rs    | 19 +++++++++++++++++--
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 199dab0..f787294 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -404,7 +404,13 @@ impl<P: StorageProvider> StreamDownload<P> {
         let cancellation_token = CancellationToken::new();
         let download_finished = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
-        let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
+        let mut source = Source::new(
+            writer,
+            content_length,
+            storage_capacity,
+            settings,
+            cancellation_token.clone(),
+        );
         let handle = source.source_handle();
 
         tokio::spawn({
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 44fc97c..def0028 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -172,6 +172,10 @@ impl Downloaded {
         }
     }
 
+    pub(super) fn clear(&self) {
+        self.0.write().clear();
+    }
+
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
         self.0.read().get(&position).cloned()
     }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 9f14d9f..86161ca 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -119,6 +119,8 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
+    // Whether the storage can hold the whole stream
+    retains_all: bool,
     prefetch_bytes: u64,
     batch_write_size: usize,
     retry_timeout: Duration,
@@ -148,6 +150,7 @@ where
     pub(crate) fn new(
         writer: W,
         content_length: Option<u64>,
+        storage_capacity: Option<usize>,
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
@@ -159,6 +162,9 @@ where
             position_reached: PositionReached::default(),
             notify_read: NotifyRead::default(),
             content_length,
+            retains_all: storage_capacity.is_none_or(|capacity| {
+                content_length.is_some_and(|length| length <= capacity as u64)
+            }),
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
             batch_write_size: settings.batch_write_size,
@@ -287,7 +293,9 @@ where
                     .add(self.prefetch_start_position..current_stream_position);
                 self.prefetch_complete = true;
             }
-            if let Some(content_length) = self.content_length {
+            if !self.retains_all {
+                self.seek(stream, position, self.content_length).await?;
+            } else if let Some(content_length) = self.content_length {
                 debug!(
                     start = position,
                     end = content_length,
@@ -379,7 +387,10 @@ where
     }
 
     async fn finish_or_find_next_gap(&mut self, stream: &mut S) -> io::Result<DownloadAction> {
-        if stream.supports_seek()
+        // Going back to fill gaps would overwrite data that wasn't read yet if the storage can't
+        // hold everything
+        if self.retains_all
+            && stream.supports_seek()
             && let Some(content_length) = self.content_length
         {
             // Prioritize what the reader is waiting for
@@ -533,6 +544,10 @@ where
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
         self.writer.seek(SeekFrom::Start(start))?;
+        if !self.retains_all {
+            // What was downloaded before may be overwritten at any point
+            self.downloaded.clear();
+        }
         Ok(())
     }
 
-- 
2.43.0


From 2c9dd03a9af3beccbd980fd53a47dd286dd1a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 18/23] Add scheduling points for the verification harness
 behind cfg(stream_download_verif)

---
 crates/stream-download/src/lib.rs           | 12 ++++++++++++
 crates/stream-download/src/source/handle.rs | 18 ++++++++++++++++++
 crates/stream-download/src/verif.rs         | 17 +++++++++++++++++
 3 files changed, 47 insertions(+)
 create mode 100644 crates/stream-download/src/verif.rs

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index f787294..86bdeab 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -2,6 +2,16 @@
 #![forbid(clippy::unwrap_used)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]
+
+/// Marks an access to state shared between the reader and the download task for the verification
+/// harness. Expands to nothing unless `stream_download_verif` is set.
+macro_rules! verif_point {
+    ($name:literal) => {
+        #[cfg(stream_download_verif)]
+        $crate::verif::point($name);
+    };
+}
 
 use std::fmt::Debug;
 use std::future::{self, Future};
@@ -26,6 +36,8 @@ pub mod registry;
 mod settings;
 pub mod source;
 pub mod storage;
+#[cfg(stream_download_verif)]
+pub mod verif;
 
 /// A handle that can be usd to interact with the stream remotely.
 #[derive(Debug, Clone)]
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index def0028..c02a5c1 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -84,6 +84,7 @@ pub(super) struct RequestedPosition {
 impl RequestedPosition {
     /// Clears the request if it's fully downloaded.
     pub(super) fn clear_if_reached(&self, downloaded: &Downloaded) -> bool {
+        verif_point!("request.clear");
         self.range
             .lock()
             .take_if(|range| downloaded.contains(range))
@@ -91,18 +92,22 @@ impl RequestedPosition {
     }
 
     pub(super) fn get(&self) -> Option<Range<u64>> {
+        verif_point!("request.get");
         self.range.lock().clone()
     }
 
     /// Whether the stream should be restarted, only true once per request.
     pub(super) fn take_restart(&self) -> bool {
+        verif_point!("request.restart");
         self.restart.swap(false, Ordering::SeqCst)
     }
 
     fn set(&self, range: Range<u64>, restart: bool) {
+        verif_point!("request.set");
         // Needs to be set before the range is visible to the download task
         self.restart.store(restart, Ordering::SeqCst);
         *self.range.lock() = Some(range);
+        verif_point!("request.notify");
         self.changed.notify_one();
     }
 
@@ -126,12 +131,14 @@ pub(super) struct PositionReached(Arc<(AssertUnwindSafe<Mutex<Waiter>>, Condvar)
 
 impl PositionReached {
     pub(super) fn notify_position_reached(&self) {
+        verif_point!("reached.notify");
         let (mutex, cvar) = self.0.as_ref();
         mutex.lock().position_reached = true;
         cvar.notify_all();
     }
 
     pub(super) fn notify_stream_done(&self) {
+        verif_point!("reached.done");
         let (mutex, cvar) = self.0.as_ref();
         mutex.lock().stream_done = true;
         cvar.notify_all();
@@ -139,6 +146,7 @@ impl PositionReached {
 
     /// Returns whether the stream is done.
     fn wait_for_position_reached(&self) -> bool {
+        verif_point!("reached.wait");
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
         if waiter.stream_done {
@@ -166,6 +174,7 @@ pub(super) struct Downloaded(Arc<AssertUnwindSafe<RwLock<RangeSet<u64>>>>);
 
 impl Downloaded {
     pub(super) fn add(&self, range: Range<u64>) {
+        verif_point!("downloaded.add");
         // explicit check here prevents panic
         if range.end > range.start {
             self.0.write().insert(range);
@@ -173,10 +182,12 @@ impl Downloaded {
     }
 
     pub(super) fn clear(&self) {
+        verif_point!("downloaded.clear");
         self.0.write().clear();
     }
 
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
+        verif_point!("downloaded.get");
         self.0.read().get(&position).cloned()
     }
 
@@ -186,10 +197,12 @@ impl Downloaded {
     }
 
     fn any_after(&self, position: u64) -> bool {
+        verif_point!("downloaded.after");
         self.0.read().iter().any(|range| range.start > position)
     }
 
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
+        verif_point!("downloaded.gap");
         self.0.read().gaps(&range).next()
     }
 }
@@ -202,16 +215,19 @@ pub(super) struct NotifyRead {
 
 impl NotifyRead {
     pub(super) fn request(&self) {
+        verif_point!("read.request");
         self.write_requested.store(true, Ordering::SeqCst);
     }
 
     fn notify_read(&self) {
+        verif_point!("read.notify");
         if self.write_requested.swap(false, Ordering::SeqCst) {
             self.notify.notify_one();
         }
     }
 
     fn notify_waiting(&self) {
+        verif_point!("read.waiting");
         if self.write_requested.load(Ordering::SeqCst) {
             self.notify.notify_one();
         }
@@ -227,10 +243,12 @@ pub(super) struct DownloadStatus(Arc<AtomicBool>);
 
 impl DownloadStatus {
     pub(super) fn set_failed(&self) {
+        verif_point!("failed.set");
         self.0.store(true, Ordering::SeqCst);
     }
 
     fn is_failed(&self) -> bool {
+        verif_point!("failed.get");
         self.0.load(Ordering::SeqCst)
     }
 }
diff --git a/crates/stream-download/src/verif.rs b/crates/stream-download/src/verif.rs
new file mode 100644
index 0000000..fd48073
--- /dev/null
+++ b/crates/stream-download/src/verif.rs
@@ -0,0 +1,17 @@
+//! Scheduling points for the verification harness, only compiled with
+//! `--cfg stream_download_verif`.
+
+use std::sync::OnceLock;
+
+static HOOK: OnceLock<fn(&'static str)> = OnceLock::new();
+
+/// Installs the function called at every scheduling point.
+pub fn set_hook(hook: fn(&'static str)) {
+    let _ = HOOK.set(hook);
+}
+
+pub(crate) fn point(name: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook(name);
+    }
+}
-- 
2.43.0


From 23590317ede607692a223ae8d531ef7d3fe1022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 19/23] fix: report the current chunk from where the prefetch
 started

---
 crates/stream-download/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 86161ca..ae421f6 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -572,7 +572,7 @@ where
             stream,
             StreamState {
                 current_position: stream_position,
-                current_chunk: (0..stream_position),
+                current_chunk: (self.prefetch_start_position..stream_position),
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Prefetching {
                     target: self.prefetch_bytes,
-- 
2.43.0


From f720c6bfb2adebd7adbd2605bafadfe9636fd31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 20/23] fix: reads of positions dropped by a seek fail instead
 of reporting the end

---
 crates/stream-download/src/source/handle.rs | 26 ++++++++++++++-------
 crates/stream-download/src/source/mod.rs    |  2 +-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index c02a5c1..b2d176f 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -3,7 +3,7 @@ use std::mem;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
@@ -170,25 +170,32 @@ impl PositionReached {
 }
 
 #[derive(Debug, Clone, Default)]
-pub(super) struct Downloaded(Arc<AssertUnwindSafe<RwLock<RangeSet<u64>>>>);
+pub(super) struct Downloaded {
+    ranges: Arc<AssertUnwindSafe<RwLock<RangeSet<u64>>>>,
+    // Nothing before this position is available anymore
+    start: Arc<AtomicU64>,
+}
 
 impl Downloaded {
     pub(super) fn add(&self, range: Range<u64>) {
         verif_point!("downloaded.add");
         // explicit check here prevents panic
         if range.end > range.start {
-            self.0.write().insert(range);
+            self.ranges.write().insert(range);
         }
     }
 
-    pub(super) fn clear(&self) {
-        verif_point!("downloaded.clear");
-        self.0.write().clear();
+    /// Forgets everything, downloading continues at the given position.
+    pub(super) fn restart(&self, position: u64) {
+        verif_point!("downloaded.restart");
+        let mut downloaded = self.ranges.write();
+        downloaded.clear();
+        self.start.store(position, Ordering::SeqCst);
     }
 
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
         verif_point!("downloaded.get");
-        self.0.read().get(&position).cloned()
+        self.ranges.read().get(&position).cloned()
     }
 
     pub(super) fn contains(&self, range: &Range<u64>) -> bool {
@@ -198,12 +205,13 @@ impl Downloaded {
 
     fn any_after(&self, position: u64) -> bool {
         verif_point!("downloaded.after");
-        self.0.read().iter().any(|range| range.start > position)
+        position < self.start.load(Ordering::SeqCst)
+            || self.ranges.read().iter().any(|range| range.start > position)
     }
 
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
         verif_point!("downloaded.gap");
-        self.0.read().gaps(&range).next()
+        self.ranges.read().gaps(&range).next()
     }
 }
 
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index ae421f6..ba15d2f 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -546,7 +546,7 @@ where
         self.writer.seek(SeekFrom::Start(start))?;
         if !self.retains_all {
             // What was downloaded before may be overwritten at any point
-            self.downloaded.clear();
+            self.downloaded.restart(start);
         }
         Ok(())
     }
-- 
2.43.0


From ce99d2e3eddcf39769252de87978ec7542d65152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 21/23] fix: resume a paused download when a seek makes space
 available

---
 crates/stream-download/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 86bdeab..5f18f03 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -648,10 +648,13 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
                 downloaded_range = format!("{closest_set:?}"),
                 "seek position already downloaded"
             );
-            return self
+            let res = self
                 .output_reader
                 .seek(SeekFrom::Start(absolute_seek_position))
                 .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
+            // Seeking forward makes space available
+            self.handle.notify_read();
+            return res;
         }
 
         // Move the reader first so the data before the new position can be overwritten if the
@@ -660,6 +663,7 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
             .output_reader
             .seek(SeekFrom::Start(absolute_seek_position))
             .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))?;
+        self.handle.notify_read();
         self.handle.seek(absolute_seek_position);
         self.check_for_failure()?;
         debug!("reached seek position");
-- 
2.43.0


From 2e71416677e61a4b1fc3600787df90e3816f04d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 22/23] fix: empty writes to memory storage don't extend it

---
 crates/stream-download/src/storage/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index b7def07..e549889 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -94,6 +94,10 @@ impl Seek for MemoryStorage {
 
 impl Write for MemoryStorage {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            // the position may be past the end of the buffer
+            return Ok(0);
+        }
         let mut inner = self.inner.write();
 
         if self.position + buf.len() > inner.len() {
-- 
2.43.0


From 3db18dd5ec703ef3bb7630f1a372c5f9e894b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 23/23] fix: don't restart the stream for a position that was
 downloaded just before it was requested

---
 crates/stream-download/src/source/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index ba15d2f..910785d 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -266,10 +266,12 @@ where
             // Waiting for the end of the stream
             return Ok(false);
         }
-        let position = self
-            .downloaded
-            .get(requested.start)
-            .map_or(requested.start, |range| range.end);
+        let position = match self.downloaded.get(requested.start) {
+            // Downloaded just before it was requested, the reader won't wait for it
+            Some(range) if range.end >= requested.end => return Ok(false),
+            Some(range) => range.end,
+            None => requested.start,
+        };
         let restart = self.requested_position.take_restart();
         self.handle_seek(stream, position, restart).await
     }
-- 
2.43.0

