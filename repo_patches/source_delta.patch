From 8c057edf76ab32a320e73f5660afdf44114a6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 01/30] fix: cut over-long names at a character boundary

ensure_size() split the requested name at a byte offset; a name with a
multi-byte character across it made the server panic while formatting an
error reply.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ffb379..5c7b7a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,8 +54,11 @@ mod string {
 
     pub fn ensure_size(s: &str, max_size: usize) -> &str {
         if s.len() > max_size {
-            let (f, _) = s.split_at(max_size);
-            return f;
+            let mut end = max_size;
+            while !s.is_char_boundary(end) {
+                end -= 1;
+            }
+            return &s[..end];
         }
         s
     }
-- 
2.43.0


From 6f1ebda527912de50d4b490b0fc34c2a5ee42ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 02/30] fix: write every byte of a received block

A Write may take only part of a block; the rest was silently dropped while
the block was acknowledged.
---
 src/writers/encrypted_stream_writer.rs |  8 +++-----
 src/writers/mod.rs                     | 22 +++++++++++++++++++++-
 src/writers/single_block_writer.rs     |  5 +++--
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/writers/encrypted_stream_writer.rs b/src/writers/encrypted_stream_writer.rs
index 2d20429..fbb273d 100644
--- a/src/writers/encrypted_stream_writer.rs
+++ b/src/writers/encrypted_stream_writer.rs
@@ -15,6 +15,7 @@ use crate::std_compat::io::ErrorKind;
 use crate::std_compat::io::Result;
 use crate::std_compat::io::Write;
 use crate::types::DataBlock07;
+use crate::writers::write_full;
 
 pub struct StreamWriter<W> {
     stream_decryptor: Option<StreamDecryptor>,
@@ -89,14 +90,11 @@ impl<W: Write> Write for StreamWriter<W> {
                 }
             })?;
 
-        let written = self
-            .writer
-            .write(buffer)
-            .map(|s| s + from + ENCRYPTION_TAG_SIZE as usize)?;
+        write_full(&mut self.writer, buffer)?;
 
         self.key.take();
 
-        Ok(written)
+        Ok(buffer.len() + from + ENCRYPTION_TAG_SIZE as usize)
     }
 
     fn write_fmt(&mut self, _fmt: core::fmt::Arguments<'_>) -> Result<()> {
diff --git a/src/writers/mod.rs b/src/writers/mod.rs
index 2342afe..8aea401 100644
--- a/src/writers/mod.rs
+++ b/src/writers/mod.rs
@@ -1,4 +1,7 @@
 use self::single_block_writer::SingleBlockWriter;
+use crate::std_compat::io::ErrorKind;
+use crate::std_compat::io::Result;
+use crate::std_compat::io::Write;
 
 pub mod block_writer;
 #[cfg(feature = "encryption")]
@@ -9,6 +12,23 @@ pub enum Writers<W> {
     Single(SingleBlockWriter<W>),
 }
 
+/// write all the data, a writer is allowed to accept only part of it at once
+pub(crate) fn write_full(writer: &mut impl Write, data: &[u8]) -> Result<()> {
+    let mut written = 0;
+    // the writer sees empty data as well
+    loop {
+        match writer.write(&data[written..]) {
+            Ok(0) if written < data.len() => return Err(ErrorKind::WriteZero.into()),
+            Ok(n) => written += n,
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e),
+        }
+        if written >= data.len() {
+            return Ok(());
+        }
+    }
+}
+
 #[cfg(feature = "alloc")]
 impl<T: self::block_writer::BlockWriter + ?Sized> self::block_writer::BlockWriter
     for alloc::boxed::Box<T>
@@ -17,7 +37,7 @@ impl<T: self::block_writer::BlockWriter + ?Sized> self::block_writer::BlockWrite
         &mut self,
         block: u16,
         data: &[u8],
-    ) -> Result<(usize, u64), crate::error::StorageError> {
+    ) -> core::result::Result<(usize, u64), crate::error::StorageError> {
         self.as_mut().write_block(block, data)
     }
 }
diff --git a/src/writers/single_block_writer.rs b/src/writers/single_block_writer.rs
index 8c71642..034e38e 100644
--- a/src/writers/single_block_writer.rs
+++ b/src/writers/single_block_writer.rs
@@ -5,6 +5,7 @@ use crate::block_mapper::BlockMapper;
 use crate::error::ExistingBlock;
 use crate::error::StorageError;
 use crate::std_compat::io::Write;
+use crate::writers::write_full;
 
 #[derive(Debug)]
 pub struct SingleBlockWriter<W> {
@@ -47,9 +48,9 @@ where
 
         trace!("Writing block {expected_index}");
 
-        let written = self.writer.write(data)?;
+        write_full(&mut self.writer, data)?;
         self.block_written = expected_index;
-        Ok((written, self.block_written))
+        Ok((data.len(), self.block_written))
     }
 }
 
-- 
2.43.0


From 002e713264de82dd2961a12d6ad4ae55ee174399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 03/30] fix: do not take a short read for the end of the file

A Read may return less than asked before the end; the block was then sent as
the last one and the rest of the file was lost.
---
 src/readers/encrypted_stream_reader.rs    | 20 +++++++++++++---
 src/readers/mod.rs                        | 19 +++++++++++++++
 src/readers/multiple_block_reader.rs      |  3 ++-
 src/readers/multiple_block_seek_reader.rs | 28 +++++++++++++----------
 src/readers/single_block_reader.rs        |  3 ++-
 5 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/readers/encrypted_stream_reader.rs b/src/readers/encrypted_stream_reader.rs
index c0ee873..deb3882 100644
--- a/src/readers/encrypted_stream_reader.rs
+++ b/src/readers/encrypted_stream_reader.rs
@@ -10,6 +10,7 @@ use crate::encryption::StreamEncryptor;
 use crate::encryption::StreamNonce;
 use crate::encryption::MIN_STREAM_CAPACITY;
 use crate::error::EncryptionError;
+use crate::readers::read_full;
 use crate::std_compat::io::ErrorKind;
 use crate::std_compat::io::Read;
 use crate::std_compat::io::Result;
@@ -23,6 +24,8 @@ pub struct StreamReader<R> {
     reader: R,
     nonce: Option<StreamNonce>,
     buffer: Option<DataBlock07>,
+    // size of the final chunk and the size of the buffer provided for it
+    finished: Option<(usize, usize)>,
 }
 
 impl<R> StreamReader<R> {
@@ -32,12 +35,18 @@ impl<R> StreamReader<R> {
             reader,
             nonce: nonce.into(),
             buffer: None,
+            finished: None,
         }
     }
 }
 
 impl<R: Read> Read for StreamReader<R> {
     fn read(&mut self, data: &mut [u8]) -> Result<usize> {
+        // nothing follows the final chunk, the rest of its buffer stays empty
+        if matches!(self.finished, Some((size, expected)) if size + data.len() == expected) {
+            return Ok(0);
+        }
+
         if !(MIN_STREAM_CAPACITY as usize..=MAX_DATA_BLOCK_SIZE as usize).contains(&data.len()) {
             return Err(ErrorKind::Unsupported.into());
         }
@@ -62,9 +71,10 @@ impl<R: Read> Read for StreamReader<R> {
         let block_size = data.len() - ENCRYPTION_TAG_SIZE as usize - from;
         resize_data_block_07(buffer, block_size);
 
-        let read_count = self
-            .reader
-            .read(buffer.get_mut(..block_size).ok_or(ErrorKind::InvalidData)?)?;
+        let read_count = read_full(
+            &mut self.reader,
+            buffer.get_mut(..block_size).ok_or(ErrorKind::InvalidData)?,
+        )?;
         buffer.truncate(read_count);
 
         trace!("Encrypting file block {buffer:x?}");
@@ -85,6 +95,10 @@ impl<R: Read> Read for StreamReader<R> {
 
         self.nonce.take();
 
+        if written < data.len() {
+            self.finished = Some((written, data.len()));
+        }
+
         Ok(written)
     }
 }
diff --git a/src/readers/mod.rs b/src/readers/mod.rs
index 9689e5c..349e7eb 100644
--- a/src/readers/mod.rs
+++ b/src/readers/mod.rs
@@ -2,6 +2,8 @@ use self::multiple_block_reader::MultipleBlockReader;
 #[cfg(feature = "seek")]
 use self::multiple_block_seek_reader::MultipleBlockSeekReader;
 use self::single_block_reader::SingleBlockReader;
+use crate::std_compat::io::ErrorKind;
+use crate::std_compat::io::Read;
 
 pub mod block_reader;
 #[cfg(feature = "encryption")]
@@ -22,6 +24,23 @@ pub enum Readers<R> {
     Seek(MultipleBlockSeekReader<R>),
 }
 
+/// fill the buffer unless the data ends before, a reader is allowed to return less than asked
+pub(crate) fn read_full(
+    reader: &mut impl Read,
+    buffer: &mut [u8],
+) -> crate::std_compat::io::Result<usize> {
+    let mut read = 0;
+    while read < buffer.len() {
+        match reader.read(&mut buffer[read..]) {
+            Ok(0) => break,
+            Ok(n) => read += n,
+            Err(e) if e.kind() == ErrorKind::Interrupted => (),
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(read)
+}
+
 #[cfg(feature = "alloc")]
 impl<T: self::block_reader::BlockReader + ?Sized> self::block_reader::BlockReader
     for alloc::boxed::Box<T>
diff --git a/src/readers/multiple_block_reader.rs b/src/readers/multiple_block_reader.rs
index c085dc1..6e6a5f1 100644
--- a/src/readers/multiple_block_reader.rs
+++ b/src/readers/multiple_block_reader.rs
@@ -9,6 +9,7 @@ use crate::block_mapper::BlockMapper;
 use crate::buffer::new_data_block;
 use crate::buffer::SliceMutExt;
 use crate::error::StorageError;
+use crate::readers::read_full;
 use crate::std_compat::io::Read;
 use crate::types::DataBlock;
 
@@ -113,7 +114,7 @@ where
 
         trace!("Reading block {index}");
 
-        let read = self.reader.read(&mut block_buffer.data)?;
+        let read = read_full(&mut self.reader, &mut block_buffer.data)?;
         block_buffer.data.truncate(read);
 
         buffer
diff --git a/src/readers/multiple_block_seek_reader.rs b/src/readers/multiple_block_seek_reader.rs
index e7a7e2e..2418b60 100644
--- a/src/readers/multiple_block_seek_reader.rs
+++ b/src/readers/multiple_block_seek_reader.rs
@@ -4,6 +4,7 @@ use super::block_reader::Block;
 use super::block_reader::BlockReader;
 use crate::block_mapper::BlockMapper;
 use crate::error::StorageError;
+use crate::readers::read_full;
 use crate::std_compat::io::Read;
 use crate::std_compat::io::Seek;
 use crate::std_compat::io::SeekFrom;
@@ -53,14 +54,15 @@ where
         if retry && self.block_read > self.block_read_confirmed {
             let first_block_offset = self.block_read_confirmed * self.block_size as u64;
             self.reader.seek(SeekFrom::Start(first_block_offset))?;
-            let read = self
-                .reader
-                .read(buffer.get_mut(..self.block_size as usize).ok_or({
+            let read = read_full(
+                &mut self.reader,
+                buffer.get_mut(..self.block_size as usize).ok_or({
                     StorageError::InvalidBuffer {
                         actual: buffer_len,
                         expected: self.block_size as usize,
                     }
-                })?)?;
+                })?,
+            )?;
 
             self.current_block = if self.block_read_confirmed > 0 {
                 self.block_read_confirmed + 1
@@ -82,14 +84,15 @@ where
         if self.block_read >= index {
             self.reader
                 .seek(SeekFrom::Start(self.current_block * self.block_size as u64))?;
-            let read = self
-                .reader
-                .read(buffer.get_mut(..self.block_size as usize).ok_or({
+            let read = read_full(
+                &mut self.reader,
+                buffer.get_mut(..self.block_size as usize).ok_or({
                     StorageError::InvalidBuffer {
                         actual: buffer_len,
                         expected: self.block_size as usize,
                     }
-                })?)?;
+                })?,
+            )?;
 
             self.current_block = index;
 
@@ -112,14 +115,15 @@ where
         if matches!(self.reader.seek(SeekFrom::Current(0)), Ok(p) if p != self.last_offset) {
             self.reader.seek(SeekFrom::Start(self.last_offset))?;
         }
-        let read = self
-            .reader
-            .read(buffer.get_mut(..self.block_size as usize).ok_or({
+        let read = read_full(
+            &mut self.reader,
+            buffer.get_mut(..self.block_size as usize).ok_or({
                 StorageError::InvalidBuffer {
                     actual: buffer_len,
                     expected: self.block_size as usize,
                 }
-            })?)?;
+            })?,
+        )?;
 
         if read < self.block_size as usize {
             self.finished_block_size = (read as u16).into();
diff --git a/src/readers/single_block_reader.rs b/src/readers/single_block_reader.rs
index 3886b44..6064026 100644
--- a/src/readers/single_block_reader.rs
+++ b/src/readers/single_block_reader.rs
@@ -6,6 +6,7 @@ use crate::block_mapper::BlockMapper;
 use crate::buffer::new_data_block;
 use crate::buffer::SliceMutExt;
 use crate::error::StorageError;
+use crate::readers::read_full;
 use crate::std_compat::io::Read;
 use crate::types::DataBlock;
 
@@ -65,7 +66,7 @@ where
 
         trace!("Reading block {}", self.block_read + 1);
 
-        let read = self.reader.read(&mut self.buffer)?;
+        let read = read_full(&mut self.reader, &mut self.buffer)?;
         self.buffer.truncate(read);
 
         buffer
-- 
2.43.0


From 95234491713bc6548018b4c6b556e6fc0f557aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 04/30] fix: send the whole file which is written while it is
 being sent

The end of the file was taken from a flag read after the data, so bytes written
just before the flag was set could be lost, and a failing read lost the bytes
already taken.
---
 std-binary/src/blocking_reader.rs | 20 +++++++++-----------
 std-binary/src/sync.rs            |  2 +-
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/std-binary/src/blocking_reader.rs b/std-binary/src/blocking_reader.rs
index 28c77da..ac79736 100644
--- a/std-binary/src/blocking_reader.rs
+++ b/std-binary/src/blocking_reader.rs
@@ -43,22 +43,20 @@ impl<R: Read> Read for BlockingReader<R> {
     // reader will error with WouldBlock if there is no data to read
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
         let expected_size = buffer.len();
-        let result = if !self.temp_buf.is_empty() {
-            let temp_len = self.temp_buf.len();
+        // data written before the source finished must still be read, so check it before reading
+        let finished = self.finished.load(Ordering::Acquire);
+        let temp_len = self.temp_buf.len();
+        let remaining = buffer.get_mut(temp_len..).ok_or(ErrorKind::InvalidData)?;
+        let result = self.file.read(remaining).map(|s| temp_len + s);
+        if result.is_ok() {
             for (to_buf, data) in buffer.iter_mut().zip(self.temp_buf.iter()) {
                 *to_buf = *data
             }
             self.temp_buf.clear();
-
-            self.file
-                .read(buffer.get_mut(temp_len..).ok_or(ErrorKind::InvalidData)?)
-                .map(|s| temp_len + s)
-        } else {
-            self.file.read(buffer)
-        };
+        }
         match result {
             Ok(0) => {
-                if self.finished.load(Ordering::Relaxed) {
+                if finished {
                     return Ok(0);
                 }
 
@@ -68,7 +66,7 @@ impl<R: Read> Read for BlockingReader<R> {
             }
             Ok(n) if expected_size == n => Ok(n),
             Ok(n) => {
-                if self.finished.load(Ordering::Relaxed) {
+                if finished {
                     return Ok(n);
                 }
 
diff --git a/std-binary/src/sync.rs b/std-binary/src/sync.rs
index d067fd2..a52d4c3 100644
--- a/std-binary/src/sync.rs
+++ b/std-binary/src/sync.rs
@@ -93,7 +93,7 @@ pub fn start_sync(
                 debug!("File {local_path} was closed");
 
                 if let Some(f) = paths_pending.remove(&local_path) {
-                    f.store(true, Ordering::Relaxed);
+                    f.store(true, Ordering::Release);
                 } else {
                     warn!("Unknown file {local_path} ignoring");
                 }
-- 
2.43.0


From 7c16fb0693931b91e88b8a3ce3c03aee81af5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 05/30] fix: create nothing outside of the server directory

A link inside the directory was followed while creating directories and the
file; only afterwards the resulting path was checked and refused.
---
 std-binary/src/io.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index 27b96d7..6fc3fd4 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -97,6 +97,13 @@ pub fn create_server_writer(requested_path: &FilePath, config: &ServerConfig) ->
     if !path.starts_with(&dir) {
         return Err(FileError::InvalidFileName.into());
     }
+    if !dir.is_dir() {
+        create_dir_all(&dir).map_err(from_io_err)?
+    }
+    // links must not lead outside of the directory before anything is created
+    if !is_existing_part_inside(&path, &dir) {
+        return Err(FileError::InvalidFileName.into());
+    }
     if let Some(dir) = path.parent() {
         if !dir.is_dir() {
             create_dir_all(dir).map_err(from_io_err)?
@@ -131,6 +138,15 @@ pub fn create_server_writer(requested_path: &FilePath, config: &ServerConfig) ->
     Err(FileError::InvalidFileName.into())
 }
 
+fn is_existing_part_inside(path: &Path, dir: &Path) -> bool {
+    path.ancestors()
+        // link exists even if its target does not
+        .find(|p| p.symlink_metadata().is_ok())
+        .and_then(|p| canonicalize(p).ok())
+        .zip(canonicalize(dir).ok())
+        .is_some_and(|(p, d)| p.starts_with(d))
+}
+
 #[allow(dead_code)]
 pub fn create_buff_reader(path: &str) -> io::Result<BufReader<StdFile>> {
     let file = match StdFile::options()
-- 
2.43.0


From 20cf1d688623eb28848830f02bd5d211cfd24302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 06/30] fix: keep the last character of a file name of the
 maximum size

Without alloc the separator did not fit after a 150 byte name and the last
character was removed instead of it.
---
 src/server/validation.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/validation.rs b/src/server/validation.rs
index c79e925..9494fcc 100644
--- a/src/server/validation.rs
+++ b/src/server/validation.rs
@@ -78,17 +78,18 @@ pub fn validate_file_name(file_name: &FilePath) -> Result<FilePath, ErrorPacket>
 
 fn normalize_remote_name(file_path: &FilePath) -> Result<FilePath, FileError> {
     #[allow(unused_must_use)]
-    let mut result = file_path
+    let result = file_path
         .as_str()
         .trim_start_matches('/')
         .split('/')
         .filter(|c| !matches!(c.trim(), "." | ".." | "/" | ""))
         .fold(FilePath::new(), |mut f, c| {
+            if !f.is_empty() {
+                f.push('/');
+            }
             f.push_str(c);
-            f.push('/');
             f
         });
-    result.pop();
     #[allow(clippy::redundant_as_str)]
     if result.as_str().is_empty() {
         return Err(FileError::InvalidFileName);
-- 
2.43.0


From eb29a24bad0d16b8386d1a734888dd29e31944c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 07/30] fix: encrypt request validation errors and send them to
 authorized only

Errors about the file name or size bypassed reply_with_error(), so they left in
plaintext in an encrypted handshake and ignored error_to_authorized_only.
---
 src/server/connection_builder.rs | 30 ++++++++++++++----------------
 src/server/validation.rs         | 29 +++++++----------------------
 2 files changed, 21 insertions(+), 38 deletions(-)

diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index dcbcad6..554c180 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -149,14 +149,13 @@ where
         CreateWriter: Fn(&FilePath, &ServerConfig) -> BoxedResult<W>,
     {
         let file_name = self.file_name.clone().ok_or(FileError::InvalidFileName)?;
-        let file_path = validate_request_options(
-            socket,
-            client,
-            &file_name,
-            &self.options,
-            &self.used_extensions,
-            self.config,
-        )?;
+        let file_path = match validate_request_options(&file_name, &self.options, self.config) {
+            Ok(p) => p,
+            Err((error_packet, e)) => {
+                self.reply_with_error(socket, client, error_packet);
+                return Err(e);
+            }
+        };
 
         let writer = match create_writer(&file_path, self.config) {
             Ok(w) => w,
@@ -238,14 +237,13 @@ where
         CreateReader: Fn(&FilePath, &ServerConfig) -> BoxedResult<(Option<u64>, R)>,
     {
         let file_name = self.file_name.clone().ok_or(FileError::InvalidFileName)?;
-        let file_path = validate_request_options(
-            socket,
-            client,
-            &file_name,
-            &self.options,
-            &self.used_extensions,
-            self.config,
-        )?;
+        let file_path = match validate_request_options(&file_name, &self.options, self.config) {
+            Ok(p) => p,
+            Err((error_packet, e)) => {
+                self.reply_with_error(socket, client, error_packet);
+                return Err(e);
+            }
+        };
         let (transfer_size, reader) = match create_reader(&file_path, self.config) {
             Ok(f) => f,
             Err(e) => {
diff --git a/src/server/validation.rs b/src/server/validation.rs
index 9494fcc..a88a9c4 100644
--- a/src/server/validation.rs
+++ b/src/server/validation.rs
@@ -1,45 +1,30 @@
-use core::net::SocketAddr;
-
 use log::error;
 
 use super::config::ServerConfig;
 use crate::config::ConnectionOptions;
-use crate::error::BoxedResult;
+use crate::error::BoxedError;
 use crate::error::ExtensionError;
 use crate::error::FileError;
-use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
 use crate::packet::ErrorPacket;
 use crate::packet::Extension;
-use crate::packet::Packet;
-use crate::packet::PacketExtensions;
-use crate::socket::Socket;
 use crate::string::ensure_size;
 use crate::string::format_str;
 use crate::types::FilePath;
 
 pub fn validate_request_options(
-    socket: &impl Socket,
-    client: SocketAddr,
     file_name: &FilePath,
     options: &ConnectionOptions,
-    _extensions: &PacketExtensions,
     config: &ServerConfig,
-) -> BoxedResult<FilePath> {
+) -> Result<FilePath, (ErrorPacket, BoxedError)> {
     if let Err(e) = handle_file_size(options.file_size.unwrap_or(0), config.max_file_size) {
-        let packet = Packet::Error(e);
-        socket.send_to(&mut packet.to_bytes(), client)?;
-        return Err(ExtensionError::InvalidExtension(Extension::TransferSize).into());
+        return Err((
+            e,
+            ExtensionError::InvalidExtension(Extension::TransferSize).into(),
+        ));
     }
 
-    match validate_file_name(file_name) {
-        Ok(p) => Ok(p),
-        Err(e) => {
-            let packet = Packet::Error(e);
-            socket.send_to(&mut packet.to_bytes(), client)?;
-            Err(FileError::InvalidFileName.into())
-        }
-    }
+    validate_file_name(file_name).map_err(|e| (e, FileError::InvalidFileName.into()))
 }
 
 pub fn handle_file_size(received_size: u64, max_file_size: u64) -> Result<(), ErrorPacket> {
-- 
2.43.0


From 1d934f982b1491e0b13bf811ceec30b43a542371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 08/30] fix: accept mode and option names in any case

RFC 1350 and RFC 2347 make them case insensitive; mixed case options were
silently ignored and an upper case mode was refused.
---
 src/packet.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 59ad023..d1c8ee0 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -197,8 +197,9 @@ impl FromStr for Mode {
     type Err = PacketError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // mode is case insensitive
         Ok(match s {
-            "octet" => Self::Octet,
+            _ if s.eq_ignore_ascii_case("octet") => Self::Octet,
             _ => return Err(PacketError::InvalidMode),
         })
     }
@@ -249,17 +250,20 @@ impl FromStr for Extension {
     type Err = PacketError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(match s {
-            "blksize" | "BLKSIZE" => Self::BlockSize,
-            "timeout" | "TIMEOUT" => Self::Timeout,
-            "tsize" | "TSIZE" => Self::TransferSize,
-            "spubk" | "SPUBK" => Self::SessionPublicKey,
-            "apubk" | "APUBK" => Self::AuthPublicKey,
-            "sig" | "SIG" => Self::Signature,
-            "enclevel" | "ENCLEVEL" => Self::EncryptionLevel,
-            "windowsize" | "WINDOWSIZE" => Self::WindowSize,
-            _ => return Err(PacketError::Invalid),
-        })
+        // option names are case insensitive
+        [
+            Self::BlockSize,
+            Self::Timeout,
+            Self::TransferSize,
+            Self::SessionPublicKey,
+            Self::AuthPublicKey,
+            Self::Signature,
+            Self::EncryptionLevel,
+            Self::WindowSize,
+        ]
+        .into_iter()
+        .find(|e| s.eq_ignore_ascii_case(e.as_str()))
+        .ok_or(PacketError::Invalid)
     }
 }
 
-- 
2.43.0


From ce525cc46381d1fb4dfed976669830ce51c3a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 09/30] fix: refuse verifying keys and signatures of a wrong
 length

A shorter value was silently extended with zeros and the end of a longer one
was ignored.
---
 src/encryption.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index f3e7b5d..6d14e03 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -376,10 +376,10 @@ pub fn decode_public_key(data: &[u8]) -> Result<PublicKey, EncryptionError> {
 
 pub fn decode_verifying_key(data: &[u8]) -> Result<VerifyingKey, EncryptionError> {
     let mut private_bytes = [0; MAX_EXTENSION_VALUE_SIZE as usize];
-    ENGINE
+    let size = ENGINE
         .decode_slice(data, &mut private_bytes)
-        .map_err(|_| EncryptionError::Decode(EncodingErrorType::Signature))?;
-    let bytes: [u8; PUBLIC_KEY_SIZE as usize] = private_bytes[..PUBLIC_KEY_SIZE as usize]
+        .map_err(|_| EncryptionError::Decode(EncodingErrorType::PublicKey))?;
+    let bytes: [u8; PUBLIC_KEY_SIZE as usize] = private_bytes[..size]
         .try_into()
         .map_err(|_| EncryptionError::Decode(EncodingErrorType::PublicKey))?;
     VerifyingKey::from_bytes(&bytes)
@@ -388,10 +388,10 @@ pub fn decode_verifying_key(data: &[u8]) -> Result<VerifyingKey, EncryptionError
 
 pub fn decode_signature(data: &[u8]) -> Result<Signature, EncryptionError> {
     let mut private_bytes = [0; MAX_EXTENSION_VALUE_SIZE as usize];
-    ENGINE
+    let size = ENGINE
         .decode_slice(data, &mut private_bytes)
         .map_err(|_| EncryptionError::Decode(EncodingErrorType::Signature))?;
-    let bytes: [u8; SIGNATURE_LENGTH] = private_bytes[..SIGNATURE_LENGTH]
+    let bytes: [u8; SIGNATURE_LENGTH] = private_bytes[..size]
         .try_into()
         .map_err(|_| EncryptionError::Decode(EncodingErrorType::Signature))?;
     Ok(Signature::from_bytes(&bytes))
-- 
2.43.0


From 40ef1542f7d36bc1560a7421f28adc18dab9f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 10/30] fix: packets of others do not extend the client timeout

A packet from another address repeated the request at once, and while such
packets kept arriving the request timeout was not checked at all.
---
 src/client/connection.rs | 35 +++++++++++++++++++++--------------
 src/client/receiver.rs   | 15 ++++++++-------
 src/client/sender.rs     | 15 ++++++++-------
 3 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 4a6d713..b6c142e 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -191,6 +191,7 @@ fn wait_for_initial_packet(
     mut retry_timeout: Duration,
 ) -> BoxedResult<(usize, SocketAddr)> {
     let timeout = instant();
+    let buffer_size = buffer.len();
     loop {
         socket.send_to(&mut packet.clone().to_bytes(), endpoint)?;
         debug!(
@@ -199,26 +200,32 @@ fn wait_for_initial_packet(
             retry_timeout.as_secs_f32()
         );
 
-        match socket.recv_from(buffer, retry_timeout.into()) {
-            Ok((n, s)) => {
-                if s.ip() == endpoint.ip() {
-                    return Ok((n, s));
+        let sent = instant();
+        // packets which are not for us neither repeat the request nor extend the wait
+        loop {
+            resize_buffer(buffer, buffer_size);
+            let wait_for = retry_timeout.saturating_sub(sent.elapsed());
+            match socket.recv_from(buffer, wait_for.into()) {
+                Ok((n, s)) => {
+                    if s.ip() == endpoint.ip() {
+                        return Ok((n, s));
+                    }
                 }
-                continue;
-            }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > request_timeout {
-                    return Err(PacketError::Timeout(elapsed).into());
+                Err(ref e) if e.kind() == ErrorKind::WouldBlock => (),
+                Err(e) => {
+                    return Err(e.into());
                 }
+            }
+            let elapsed = timeout.elapsed();
+            if elapsed > request_timeout {
+                return Err(PacketError::Timeout(elapsed).into());
+            }
+            if sent.elapsed() >= retry_timeout {
                 retry_timeout = min(
                     request_timeout.saturating_sub(elapsed),
                     retry_timeout.saturating_mul(2),
                 );
-                continue;
-            }
-            Err(e) => {
-                return Err(e.into());
+                break;
             }
         }
     }
diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 07fa1d4..296a631 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -177,6 +177,14 @@ where
     let mut send_buffer = create_max_buffer(options.block_size);
 
     loop {
+        let elapsed = timeout.elapsed();
+        if elapsed > config.request_timeout {
+            if let Ok(s) = socket.local_addr() {
+                debug!("Received timeout for {}", s);
+            }
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+
         resize_buffer(&mut receive_buffer, max_receive_buffer_size);
 
         let received = match socket.recv_from(&mut receive_buffer, Duration::from_secs(1).into()) {
@@ -187,13 +195,6 @@ where
                 n
             }
             Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Received timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
                 continue;
             }
             Err(e) => {
diff --git a/src/client/sender.rs b/src/client/sender.rs
index 02a7b80..5b28adc 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -182,6 +182,14 @@ where
     let send_max_buffer_size = send_buffer.len();
     let started = instant();
     loop {
+        let elapsed = timeout.elapsed();
+        if elapsed > config.request_timeout {
+            if let Ok(s) = socket.local_addr() {
+                debug!("Send timeout for {}", s);
+            }
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+
         if stats_calculate.elapsed() > flow_control_period {
             rate_control.calculate_transmit_rate(
                 options.block_size,
@@ -270,13 +278,6 @@ where
                 n
             }
             Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Send timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
                 no_work += 1;
 
                 continue;
-- 
2.43.0


From 63aff10afdcb64d965e36210143335fd5aed78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 11/30] fix: an undecryptable packet does not end the client
 transfer

Any forged, damaged or repeated handshake packet ended an encrypted transfer
with an error, the server ignores such packets.
---
 src/client/encryption_socket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/encryption_socket.rs b/src/client/encryption_socket.rs
index 8e1e583..a1e868b 100644
--- a/src/client/encryption_socket.rs
+++ b/src/client/encryption_socket.rs
@@ -72,9 +72,10 @@ where
 
         match (self.encryption_level, &self.connection_encryptor) {
             (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) => {
+                // packet is not from the peer, ignore it
                 EncryptedPacket::decrypt(encryptor, buff).map_err(|e| {
                     error!("Failed to decrypt data {e}");
-                    Error::from(ErrorKind::InvalidData)
+                    Error::from(ErrorKind::WouldBlock)
                 })?;
             }
             (EncryptionLevel::Data, Some(encryptor))
@@ -82,7 +83,7 @@ where
             {
                 EncryptedDataPacket::decrypt(encryptor, buff).map_err(|e| {
                     error!("Failed to decrypt data {e}");
-                    Error::from(ErrorKind::InvalidData)
+                    Error::from(ErrorKind::WouldBlock)
                 })?;
             }
             _ => (),
-- 
2.43.0


From 1a87842dd5c78420ed17f9ef35bc74fbe72621d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 12/30] fix: refuse a reply which weakens full encryption

A client which requires full encryption accepted an option reply without
encryption or with an encryption level it never negotiates.
---
 src/client/extensions.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/client/extensions.rs b/src/client/extensions.rs
index 019f2e3..874a8bb 100644
--- a/src/client/extensions.rs
+++ b/src/client/extensions.rs
@@ -193,6 +193,21 @@ pub fn parse_extensions(
             ));
         }
 
+        if expected_encryption_level == EncryptionLevel::Full
+            && server_encryption_level != EncryptionLevel::Full
+        {
+            return Err(ExtensionError::ClientRequiredEncryption(
+                options.encryption_level,
+            ));
+        }
+
+        if matches!(
+            server_encryption_level,
+            EncryptionLevel::OptionalData | EncryptionLevel::OptionalProtocol
+        ) {
+            return Err(ExtensionError::InvalidExtension(Extension::EncryptionLevel));
+        }
+
         options.encryption_level =
             encryption_level.ok_or(ExtensionError::InvalidExtension(Extension::EncryptionLevel))?;
 
-- 
2.43.0


From 19a10c405904da7b66ac42061e04cfd38213d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 13/30] fix: use the defaults with a server which ignores
 options

The client kept its window size and encryption level, so it sent or accepted
plaintext although encryption was required, compared the packet with the block
size and took the first block for the whole file.
---
 src/client/connection.rs | 27 ++++++++++++++++++++++++---
 src/client/receiver.rs   |  8 +++++---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index b6c142e..7495de3 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -11,10 +11,12 @@ use super::ClientConfig;
 use crate::buffer::resize_buffer;
 use crate::config::ConnectionOptions;
 use crate::config::DEFAULT_DATA_BLOCK_SIZE;
+use crate::config::EXTENSION_WINDOW_SIZE_MIN;
 use crate::encryption::EncryptionLevel;
 use crate::encryption::PublicKeyPair;
 use crate::error::BoxedResult;
 use crate::error::DefaultBoxedResult;
+use crate::error::ExtensionError;
 use crate::error::PacketError;
 use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
@@ -132,17 +134,19 @@ pub fn query_server<'a>(
                 return Ok(QueryResult {
                     received_length: None,
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: without_extensions(options)?,
                     endpoint,
                     remote_session_public_keys: None,
                 });
             }
-            (PacketType::Read, Ok(Packet::Data(_))) => {
+            (PacketType::Read, Ok(Packet::Data(p)))
+                if p.data.len() <= DEFAULT_DATA_BLOCK_SIZE as usize =>
+            {
                 // server disregards extensions
                 return Ok(QueryResult {
                     received_length: Some(length),
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: without_extensions(options)?,
                     endpoint,
                     remote_session_public_keys: None,
                 });
@@ -169,6 +173,23 @@ pub fn query_server<'a>(
     }
 }
 
+/// options to use with a server which replied without any
+fn without_extensions(
+    mut options: ConnectionOptions,
+) -> Result<ConnectionOptions, ExtensionError> {
+    if matches!(
+        options.encryption_level,
+        EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full
+    ) {
+        return Err(ExtensionError::ClientRequiredEncryption(
+            options.encryption_level,
+        ));
+    }
+    options.encryption_level = EncryptionLevel::None;
+    options.window_size = EXTENSION_WINDOW_SIZE_MIN;
+    Ok(options.with_block_size(DEFAULT_DATA_BLOCK_SIZE))
+}
+
 pub fn send_error(
     socket: &impl Socket,
     endpoint: SocketAddr,
diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 296a631..33c5b03 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -127,11 +127,13 @@ where
     // server sent data packet so no encryption
     if let Some(packet_length) = received_length.take() {
         if let Ok(Packet::Data(p)) = Packet::from_bytes(&receive_buffer[..packet_length]) {
-            handle_file_size(&socket, endpoint, packet_length, config.max_file_size)?;
+            handle_file_size(&socket, endpoint, p.data.len(), config.max_file_size)?;
+            let mut finished = false;
             match write_block(&mut block_writer, p.block, p.data) {
                 Ok((written, index, block)) => {
                     if let Some(w) = written {
                         total += w;
+                        finished = w < options.block_size_with_encryption() as usize;
                     }
 
                     if options.window_size <= 1
@@ -147,13 +149,13 @@ where
                 Err(e) => return Err(e),
             };
 
-            if packet_length != options.block_size_with_encryption() as usize {
+            if finished {
                 info!("Client finished receiving {local_file_path} {total} bytes");
                 histogram!("tftp.client.connection.duration", "connection_type" => "read")
                     .record(started.elapsed());
                 counter!("tftp.client.connection.transfer.size", "connection_type" => "read")
                     .increment(total as u64);
-                return Ok((packet_length, None));
+                return Ok((total, None));
             }
         }
     }
-- 
2.43.0


From be4fa4221b7e2f6889a7b7c50a107708ffb529b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 14/30] fix: send an error packet for options not requested

The error left without its opcode, the server could not recognize it.
---
 src/client/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7495de3..00d29fd 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -102,7 +102,7 @@ pub fn query_server<'a>(
             (_, Ok(Packet::OptionalAck(p))) => {
                 if let Err(e) = validate_extensions(&p.extensions, &used_extensions) {
                     let message = e.message.clone();
-                    socket.send_to(&mut e.to_bytes(), endpoint)?;
+                    send_error(socket, endpoint, e.code, e.message)?;
                     return Err(PacketError::RemoteError(message).into());
                 }
                 let (conn, remote_session_public_keys) = parse_extensions(p.extensions, options)?;
-- 
2.43.0


From 284a7379cc77dfe4c48e491c5face4c7185be69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 15/30] fix: tell the server about a local storage error

The server kept the session and repeated its packets until the timeout.
---
 src/client/receiver.rs | 23 ++++++++++++++++++++---
 src/client/sender.rs   |  9 ++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 33c5b03..b6320cf 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -117,7 +117,13 @@ where
         remote_session_public_keys.as_ref(),
     );
 
-    let writer = create_writer(&local_file_path)?;
+    let writer = match create_writer(&local_file_path) {
+        Ok(w) => w,
+        Err(e) => {
+            report_storage_error(&socket, endpoint);
+            return Err(e);
+        }
+    };
     let mut block_writer = SingleBlockWriter::new(writer);
 
     let mut last_block_ack = 0;
@@ -146,7 +152,10 @@ where
                         last_block_ack = index;
                     }
                 }
-                Err(e) => return Err(e),
+                Err(e) => {
+                    report_storage_error(&socket, endpoint);
+                    return Err(e);
+                }
             };
 
             if finished {
@@ -257,11 +266,19 @@ where
                     }
                 }
             }
-            Err(e) => return Err(e),
+            Err(e) => {
+                report_storage_error(&socket, endpoint);
+                return Err(e);
+            }
         }
     }
 }
 
+fn report_storage_error(socket: &impl Socket, endpoint: SocketAddr) {
+    let message = format_str!(DefaultString, "Unable to write file");
+    let _ = send_error(socket, endpoint, ErrorCode::DiskFull, message);
+}
+
 fn write_block(
     block_writer: &mut impl BlockWriter,
     block: u16,
diff --git a/src/client/sender.rs b/src/client/sender.rs
index 5b28adc..b8a697e 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -12,6 +12,7 @@ use crate::block_mapper::BlockMapper;
 use crate::buffer::create_max_buffer;
 use crate::buffer::resize_buffer;
 use crate::client::connection::query_server;
+use crate::client::connection::send_error;
 use crate::client::connection::QueryOptions;
 use crate::client::connection::QueryResult;
 use crate::client::extensions::create_extensions;
@@ -30,6 +31,7 @@ use crate::metrics::histogram;
 use crate::packet::prepend_data_header;
 use crate::packet::AckPacket;
 use crate::packet::ByteConverter;
+use crate::packet::ErrorCode;
 use crate::packet::Packet;
 use crate::packet::PacketType;
 use crate::readers::block_reader::BlockReader;
@@ -39,6 +41,7 @@ use crate::readers::Readers;
 use crate::socket::Socket;
 use crate::std_compat::io::ErrorKind;
 use crate::std_compat::io::Read;
+use crate::string::format_str;
 use crate::time::InstantCallback;
 use crate::types::FilePath;
 
@@ -213,7 +216,11 @@ where
                     trace!("Reading from a file {local_file_path} would block");
                     None
                 }
-                Err(e) => return Err(e.into()),
+                Err(e) => {
+                    let message = format_str!(DefaultString, "Unable to read file");
+                    let _ = send_error(&socket, endpoint, ErrorCode::AccessViolation, message);
+                    return Err(e.into());
+                }
             };
         if let Some(data_block) = next_block {
             let last_read_length = data_block.size;
-- 
2.43.0


From 3e49a83701ee702a8c6143131fb0e1eb27deedc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 16/30] fix: a finished or failed server session stores nothing
 more

In the single threaded server the session stays for up to two seconds, blocks
after the last one or after an error were still written and acknowledged.
---
 src/server/helpers/read.rs  |  5 +++++
 src/server/helpers/write.rs | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/server/helpers/read.rs b/src/server/helpers/read.rs
index b4d27d9..25b6b5b 100644
--- a/src/server/helpers/read.rs
+++ b/src/server/helpers/read.rs
@@ -90,6 +90,11 @@ pub fn handle_read<R: BlockReader, B: BoundSocket, Rng: CryptoRng + RngCore + Co
     buffer: &mut DataBuffer,
     instant: InstantCallback,
 ) -> Option<()> {
+    // session has ended, it only waits to be removed
+    if connection.finished || connection.invalid.is_some() {
+        return None;
+    }
+
     if !connection.decrypt_packet(buffer) {
         return None;
     }
diff --git a/src/server/helpers/write.rs b/src/server/helpers/write.rs
index 87ef7b0..aeb77ed 100644
--- a/src/server/helpers/write.rs
+++ b/src/server/helpers/write.rs
@@ -28,6 +28,10 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
     instant: InstantCallback,
     max_file_size: u64,
 ) -> Option<()> {
+    if connection.invalid.is_some() {
+        return None;
+    }
+
     if !connection.decrypt_packet(receive_buffer) {
         return None;
     }
@@ -50,6 +54,12 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
     let mut write_elapsed = instant();
 
     let result = match Packet::from_bytes(receive_buffer) {
+        // nothing follows the final block, its acknowledgement could have been lost
+        Ok(Packet::Data(_)) if connection.finished => {
+            let block = connection.last_acknowledged as u16;
+            connection.send_packet(Packet::Ack(AckPacket { block }), send_buffer);
+            return None;
+        }
         Ok(Packet::Data(p)) => {
             let data_length = p.data.len();
 
@@ -112,6 +122,7 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
                         "Client write {} finished with {} bytes",
                         connection.endpoint, connection.transfer
                     );
+                    connection.last_acknowledged = index;
                     connection.finished = true;
                 }
             }
-- 
2.43.0


From 7b1ba687d59975425c6235d1bb682d9f2913f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 17/30] fix: repeat a lost reply to a request

An option acknowledgement (or acknowledgement 0) was sent once. When it was
lost the client repeated its request, which the session ignored, until both
timed out; on a download the client took the data that followed for the reply
of a server without options. The reply is now repeated until the client
answers, data follows the client's acknowledgement of the options, which the
client repeats as well.
---
 src/client/receiver.rs           | 14 +++++++-
 src/server/connection.rs         | 53 ++++++++++++++++++++++++++++
 src/server/connection_builder.rs |  2 ++
 src/server/helpers/connection.rs | 60 ++++++++++++++++++--------------
 src/server/helpers/read.rs       | 12 +++++++
 src/server/helpers/write.rs      |  2 ++
 src/server/multi_thread.rs       |  9 ++++-
 src/server/single_thread.rs      |  6 ++++
 8 files changed, 130 insertions(+), 28 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index b6320cf..4d5f909 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -179,6 +179,7 @@ where
         let packet = Packet::Ack(AckPacket { block: 0 });
         socket.send_to(&mut packet.to_bytes(), endpoint)?;
     }
+    let mut last_confirmed = instant();
 
     let mut timeout = instant();
     // buffer will change based on options.block_size
@@ -198,7 +199,18 @@ where
 
         resize_buffer(&mut receive_buffer, max_receive_buffer_size);
 
-        let received = match socket.recv_from(&mut receive_buffer, Duration::from_secs(1).into()) {
+        let mut wait_for = Duration::from_secs(1);
+        // server waits for the confirmation before it sends any data
+        if acknowledge && total == 0 {
+            if last_confirmed.elapsed() > options.retry_packet_after_timeout {
+                let packet = Packet::Ack(AckPacket { block: 0 });
+                socket.send_to(&mut packet.to_bytes(), endpoint)?;
+                last_confirmed = instant();
+            }
+            wait_for = wait_for.min(options.retry_packet_after_timeout);
+        }
+
+        let received = match socket.recv_from(&mut receive_buffer, wait_for.into()) {
             Ok((n, s)) => {
                 if s != endpoint {
                     continue;
diff --git a/src/server/connection.rs b/src/server/connection.rs
index ccce154..fa05a36 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -13,12 +13,16 @@ use crate::encryption::*;
 use crate::macros::cfg_encryption;
 use crate::metrics::counter;
 use crate::metrics::histogram;
+use crate::packet::AckPacket;
 use crate::packet::ByteConverter;
+use crate::packet::OptionalAck;
 use crate::packet::Packet;
+use crate::packet::PacketExtensions;
 use crate::packet::PacketType;
 use crate::socket::BoundSocket;
 use crate::std_compat::io;
 use crate::std_compat::time::Instant;
+use crate::time::InstantCallback;
 use crate::types::DataBuffer;
 
 cfg_encryption! {
@@ -36,6 +40,14 @@ pub enum ConnectionType {
     Write,
 }
 
+/// reply to the request, repeated until the client shows it has received it
+pub struct PendingReply<Rng> {
+    /// empty: client did not use extensions
+    pub extensions: PacketExtensions,
+    /// encryption used by the handshake, when the session has its own
+    pub handshake_encryptor: Option<Option<Encryptor<Rng>>>,
+}
+
 pub struct Connection<B, Rng> {
     pub socket: B,
     pub options: ConnectionOptions,
@@ -56,6 +68,7 @@ pub struct Connection<B, Rng> {
     pub finished: bool,
     pub invalid: Option<Instant>,
     pub writer: bool,
+    pub pending_reply: Option<PendingReply<Rng>>,
 }
 
 impl<B: BoundSocket, Rng: CryptoRng + RngCore + Copy> Connection<B, Rng> {
@@ -125,6 +138,46 @@ impl<B: BoundSocket, Rng: CryptoRng + RngCore + Copy> Connection<B, Rng> {
         self.send_bytes(packet_name, buffer)
     }
 
+    /// confirm that the client has received the reply to its request
+    pub fn confirm_reply(&mut self, instant: InstantCallback) {
+        if self.pending_reply.take().is_some() {
+            self.retry_packet_multiplier = NonZeroU8::MIN;
+            self.last_sent = instant();
+        }
+    }
+
+    /// repeat the reply to the request once its retry timeout has passed
+    pub fn repeat_reply(&mut self, buffer: &mut DataBuffer, instant: InstantCallback) -> bool {
+        let timeout = self
+            .options
+            .retry_packet_after_timeout
+            .mul_f32(self.retry_packet_multiplier.get() as f32);
+        if self.last_sent.elapsed() <= timeout {
+            return false;
+        }
+        let Some(mut reply) = self.pending_reply.take() else {
+            return false;
+        };
+        let packet = if reply.extensions.is_empty() {
+            Packet::Ack(AckPacket { block: 0 })
+        } else {
+            Packet::OptionalAck(OptionalAck {
+                extensions: reply.extensions.clone(),
+            })
+        };
+        if let Some(encryptor) = &mut reply.handshake_encryptor {
+            core::mem::swap(&mut self.encryptor, encryptor);
+        }
+        let sent = self.send_packet(packet, buffer);
+        if let Some(encryptor) = &mut reply.handshake_encryptor {
+            core::mem::swap(&mut self.encryptor, encryptor);
+        }
+        self.pending_reply = reply.into();
+        self.retry_packet_multiplier = self.retry_packet_multiplier.saturating_add(2);
+        self.last_sent = instant();
+        sent
+    }
+
     pub fn send_bytes(&self, packet_name: PacketType, data: &mut DataBuffer) -> bool {
         #[cfg(feature = "encryption")]
         if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =
diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index 554c180..143119a 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -207,6 +207,7 @@ where
                 last_acknowledged: 0,
                 retry_packet_multiplier: NonZeroU8::new(1).expect("Non zero multiplier"),
                 writer: true,
+                pending_reply: None,
             },
             block_writer(writer),
             self.used_extensions,
@@ -324,6 +325,7 @@ where
                 last_acknowledged: 0,
                 retry_packet_multiplier: NonZeroU8::new(1).expect("Non zero multiplier"),
                 writer: false,
+                pending_reply: None,
             },
             r,
             self.used_extensions,
diff --git a/src/server/helpers/connection.rs b/src/server/helpers/connection.rs
index 47ce391..2fb1176 100644
--- a/src/server/helpers/connection.rs
+++ b/src/server/helpers/connection.rs
@@ -19,6 +19,7 @@ use crate::packet::PacketExtensions;
 use crate::server::config::ServerConfig;
 use crate::server::connection::Connection;
 use crate::server::connection::ConnectionType;
+use crate::server::connection::PendingReply;
 use crate::server::connection_builder::ConnectionBuilder;
 use crate::socket::BoundSocket;
 use crate::string::format_str;
@@ -80,7 +81,7 @@ pub fn accept_connection<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
             if !used_extensions.is_empty() {
                 if !connection.send_packet(
                     Packet::OptionalAck(OptionalAck {
-                        extensions: used_extensions,
+                        extensions: used_extensions.clone(),
                     }),
                     buffer,
                 ) {
@@ -89,40 +90,24 @@ pub fn accept_connection<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
             } else if !connection.send_packet(Packet::Ack(AckPacket { block: 0 }), buffer) {
                 return None;
             }
-            // new encryption starts only here
-            #[cfg(feature = "encryption")]
-            if let Some(keys) = _session_keys {
-                let (encryptor, _) = keys
-                    .server_keys
-                    .session
-                    .finalize(&keys.remote_session_public_key, _rng);
-                connection.encryptor = encryptor.into();
-            }
+            start_session(connection, used_extensions, _session_keys, _rng);
 
             print_options("Server writing using", &connection.options);
 
             Some(())
         }
         ConnectionType::Read => {
-            if !used_extensions.is_empty()
-                && !connection.send_packet(
+            // the first data block is the reply when there are no extensions
+            if !used_extensions.is_empty() {
+                if !connection.send_packet(
                     Packet::OptionalAck(OptionalAck {
-                        extensions: used_extensions,
+                        extensions: used_extensions.clone(),
                     }),
                     buffer,
-                )
-            {
-                return None;
-            }
-
-            // new encryption starts only here
-            #[cfg(feature = "encryption")]
-            if let Some(keys) = _session_keys {
-                let (encryptor, _) = keys
-                    .server_keys
-                    .session
-                    .finalize(&keys.remote_session_public_key, _rng);
-                connection.encryptor = encryptor.into();
+                ) {
+                    return None;
+                }
+                start_session(connection, used_extensions, _session_keys, _rng);
             }
 
             print_options("Server reading using", &connection.options);
@@ -132,6 +117,29 @@ pub fn accept_connection<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
     }
 }
 
+fn start_session<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
+    connection: &mut Connection<B, Rng>,
+    extensions: PacketExtensions,
+    _session_keys: Option<SessionKeys>,
+    _rng: Rng,
+) {
+    #[allow(unused_mut)]
+    let mut reply = PendingReply {
+        extensions,
+        handshake_encryptor: None,
+    };
+    // new encryption starts only here
+    #[cfg(feature = "encryption")]
+    if let Some(keys) = _session_keys {
+        let (encryptor, _) = keys
+            .server_keys
+            .session
+            .finalize(&keys.remote_session_public_key, _rng);
+        reply.handshake_encryptor = connection.encryptor.replace(encryptor).into();
+    }
+    connection.pending_reply = reply.into();
+}
+
 pub fn timeout_client<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
     connection: &mut Connection<B, Rng>,
     request_timeout: Duration,
diff --git a/src/server/helpers/read.rs b/src/server/helpers/read.rs
index 25b6b5b..384077c 100644
--- a/src/server/helpers/read.rs
+++ b/src/server/helpers/read.rs
@@ -28,6 +28,11 @@ pub fn send_data_block<R: BlockReader, B: BoundSocket, Rng: CryptoRng + RngCore
     buffer: &mut DataBuffer,
     instant: InstantCallback,
 ) -> bool {
+    // data follows once the client has acknowledged the extensions
+    if connection.pending_reply.is_some() {
+        return connection.repeat_reply(buffer, instant);
+    }
+
     let timeout = connection
         .options
         .retry_packet_after_timeout
@@ -112,6 +117,13 @@ pub fn handle_read<R: BlockReader, B: BoundSocket, Rng: CryptoRng + RngCore + Co
         Ok(Packet::Ack(p)) => {
             debug!("Ack received {} {}", p.block, connection.endpoint);
 
+            if connection.pending_reply.is_some() {
+                if p.block == 0 {
+                    connection.confirm_reply(instant);
+                }
+                return Some(());
+            }
+
             let bytes_freed = block_reader.free_block(p.block);
             if bytes_freed > 0 {
                 connection.last_updated = instant();
diff --git a/src/server/helpers/write.rs b/src/server/helpers/write.rs
index aeb77ed..6e7918e 100644
--- a/src/server/helpers/write.rs
+++ b/src/server/helpers/write.rs
@@ -62,6 +62,7 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
         }
         Ok(Packet::Data(p)) => {
             let data_length = p.data.len();
+            connection.confirm_reply(instant);
 
             debug!(
                 "Packet received block {} size {} total {} from {}",
@@ -71,6 +72,7 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
             write_block(block_writer, p.block, p.data)
         }
         Ok(Packet::Ack(_)) => {
+            connection.confirm_reply(instant);
             return None;
         }
         Ok(Packet::Error(p)) => {
diff --git a/src/server/multi_thread.rs b/src/server/multi_thread.rs
index e68cd4a..a0db14f 100644
--- a/src/server/multi_thread.rs
+++ b/src/server/multi_thread.rs
@@ -302,10 +302,17 @@ fn spawn_writer<
                 return;
             }
 
+            connection.repeat_reply(&mut send_buffer, instant);
+
             resize_buffer(&mut receive_buffer, receive_max_buffer_size);
 
+            let mut wait_for = Duration::from_secs(1);
+            if connection.pending_reply.is_some() {
+                wait_for = wait_for.min(connection.options.retry_packet_after_timeout);
+            }
+
             let received_length =
-                match connection.recv(&mut receive_buffer, Duration::from_secs(1).into()) {
+                match connection.recv(&mut receive_buffer, wait_for.into()) {
                     Ok(connection_received) => connection_received,
                     Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
                         continue;
diff --git a/src/server/single_thread.rs b/src/server/single_thread.rs
index 35815b1..8e8ef8e 100644
--- a/src/server/single_thread.rs
+++ b/src/server/single_thread.rs
@@ -153,6 +153,12 @@ where
             timeout_duration = instant();
         }
 
+        for (connection, _) in clients.values_mut() {
+            if connection.writer && !connection.finished && connection.invalid.is_none() {
+                connection.repeat_reply(&mut send_buffer, instant);
+            }
+        }
+
         let sent_in = instant();
 
         let (sent, recv_next_client_to_send) =
-- 
2.43.0


From 1b7569467209fdb9b82c301373e386da44f31ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 18/30] fix: receive requests which are larger than the server
 block size

---
 src/server/multi_thread.rs  | 4 +++-
 src/server/single_thread.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/multi_thread.rs b/src/server/multi_thread.rs
index a0db14f..3e439b6 100644
--- a/src/server/multi_thread.rs
+++ b/src/server/multi_thread.rs
@@ -13,6 +13,7 @@ use rand::RngCore;
 use super::config::ServerConfig;
 use crate::buffer::create_max_buffer;
 use crate::buffer::resize_buffer;
+use crate::config::MAX_DATA_BLOCK_SIZE;
 use crate::error::BoxedResult;
 use crate::error::DefaultBoxedResult;
 use crate::macros::cfg_seek;
@@ -89,7 +90,8 @@ where
 {
     info!("Starting server on {}", config.listen);
 
-    let mut receive_buffer = create_max_buffer(config.max_block_size);
+    // a request can be padded to the block size which the client asks for
+    let mut receive_buffer = create_max_buffer(MAX_DATA_BLOCK_SIZE);
     let receive_max_buffer_size = receive_buffer.len();
 
     #[cfg(feature = "encryption")]
diff --git a/src/server/single_thread.rs b/src/server/single_thread.rs
index 8e8ef8e..ee66de1 100644
--- a/src/server/single_thread.rs
+++ b/src/server/single_thread.rs
@@ -10,6 +10,7 @@ use super::config::ServerConfig;
 use super::helpers::read::send_data_block;
 use crate::buffer::create_max_buffer;
 use crate::buffer::resize_buffer;
+use crate::config::MAX_DATA_BLOCK_SIZE;
 use crate::error::BoxedResult;
 use crate::error::DefaultBoxedResult;
 use crate::macros::cfg_alloc;
@@ -99,7 +100,8 @@ where
 {
     info!("Starting server on a {}", config.listen);
 
-    let mut receive_buffer = create_max_buffer(config.max_block_size);
+    // a request can be padded to the block size which the client asks for
+    let mut receive_buffer = create_max_buffer(MAX_DATA_BLOCK_SIZE);
     let receive_max_buffer_size = receive_buffer.len();
 
     #[cfg(feature = "encryption")]
-- 
2.43.0


From 07e6f07057e58426fd33af3d1da780a1d920e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 19/30] fix: retry within the request timeout

---
 src/client/sender.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/client/sender.rs b/src/client/sender.rs
index b8a697e..15ed749 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -1,3 +1,5 @@
+use core::cmp::max;
+use core::cmp::min;
 use core::num::Wrapping;
 use core::time::Duration;
 
@@ -206,8 +208,15 @@ where
 
         resize_buffer(&mut send_buffer, send_max_buffer_size);
 
-        let timeout_interval =
-            rate_control.timeout_interval(options.retry_packet_after_timeout, options.block_size);
+        // several retries must fit in the request timeout
+        let max_timeout_interval = max(
+            config.request_timeout / 4,
+            options.retry_packet_after_timeout,
+        );
+        let timeout_interval = min(
+            rate_control.timeout_interval(options.retry_packet_after_timeout, options.block_size),
+            max_timeout_interval,
+        );
         let retry = last_sent.elapsed() > timeout_interval;
         let next_block =
             match block_reader.next(&mut send_buffer[DATA_PACKET_HEADER_SIZE.into()..], retry) {
-- 
2.43.0


From 6e852cc26c9c893e910f067a2c3efb3b47cc3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 20/30] fix: refuse a malformed transfer size of the server

---
 src/client/extensions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/extensions.rs b/src/client/extensions.rs
index 874a8bb..dd13089 100644
--- a/src/client/extensions.rs
+++ b/src/client/extensions.rs
@@ -153,7 +153,9 @@ pub fn parse_extensions(
     }
 
     if let Some(tsize) = server_extensions.get(&Extension::TransferSize) {
-        let server_file_size: u64 = tsize.parse().unwrap_or(0);
+        let server_file_size: u64 = tsize
+            .parse()
+            .map_err(|_| ExtensionError::InvalidExtension(Extension::TransferSize))?;
         if options.file_size.is_none() || Some(0) == options.file_size {
             options.file_size = Some(server_file_size);
         } else if options.file_size > Some(0) && options.file_size != Some(server_file_size) {
-- 
2.43.0


From 8091a25817efbcbaa0c341e8525d37a5889f87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 21/30] fix: refuse encrypted packets which are too short
 instead of panicking

---
 src/encryption.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 6d14e03..c98bc3c 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -303,7 +303,9 @@ impl<R: CryptoRng + RngCore + Clone> Encryptor<R> {
             .ok_or(EncryptionError::Decrypt)?
             .into();
         buffer.truncate(buffer.len() - nonce.len() - tag.len());
-        let (_, data) = buffer.split_at_mut(from_position);
+        let data = buffer
+            .get_mut(from_position..)
+            .ok_or(EncryptionError::Decrypt)?;
         self.cipher
             .decrypt_in_place_detached(&nonce, &[], data, &tag)
             .map_err(|_| EncryptionError::Decrypt)
-- 
2.43.0


From 8d22eac6baf8352e09f8903765c5f51143f8e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 22/30] fix: pad errors about a rejected request like other
 packets

---
 src/server/connection_builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index 143119a..46578c0 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -11,6 +11,7 @@ use super::extensions::parse_extensions;
 use super::readers_available::ReadersAvailable;
 use super::validation::validate_request_options;
 use crate::config::ConnectionOptions;
+use crate::config::DATA_PACKET_HEADER_SIZE;
 use crate::encryption::*;
 use crate::error::AvailabilityError;
 use crate::error::BoxedResult;
@@ -347,7 +348,7 @@ where
             client,
             error_packet,
             self.handshake_encryption.as_ref(),
-            self.options.block_size_with_encryption(),
+            self.options.block_size_with_encryption() + DATA_PACKET_HEADER_SIZE as u16,
         );
     }
 }
-- 
2.43.0


From e442ccb4f859e34aff14b8985c4e9b01d58f88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 23/30] fix: keep a partly read block when the reader would
 block

---
 src/readers/encrypted_stream_reader.rs    |  4 ++++
 src/readers/mod.rs                        | 12 ++++++++++--
 src/readers/multiple_block_reader.rs      | 21 +++++++++++++++++----
 src/readers/multiple_block_seek_reader.rs |  3 +++
 src/readers/single_block_reader.rs        |  4 +++-
 5 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/readers/encrypted_stream_reader.rs b/src/readers/encrypted_stream_reader.rs
index deb3882..2eead49 100644
--- a/src/readers/encrypted_stream_reader.rs
+++ b/src/readers/encrypted_stream_reader.rs
@@ -26,6 +26,8 @@ pub struct StreamReader<R> {
     buffer: Option<DataBlock07>,
     // size of the final chunk and the size of the buffer provided for it
     finished: Option<(usize, usize)>,
+    // partially read chunk
+    filled: u16,
 }
 
 impl<R> StreamReader<R> {
@@ -36,6 +38,7 @@ impl<R> StreamReader<R> {
             nonce: nonce.into(),
             buffer: None,
             finished: None,
+            filled: 0,
         }
     }
 }
@@ -74,6 +77,7 @@ impl<R: Read> Read for StreamReader<R> {
         let read_count = read_full(
             &mut self.reader,
             buffer.get_mut(..block_size).ok_or(ErrorKind::InvalidData)?,
+            &mut self.filled,
         )?;
         buffer.truncate(read_count);
 
diff --git a/src/readers/mod.rs b/src/readers/mod.rs
index 349e7eb..f26415c 100644
--- a/src/readers/mod.rs
+++ b/src/readers/mod.rs
@@ -25,17 +25,25 @@ pub enum Readers<R> {
 }
 
 /// fill the buffer unless the data ends before, a reader is allowed to return less than asked
+///
+/// `filled` keeps what was read already when the reader would block
 pub(crate) fn read_full(
     reader: &mut impl Read,
     buffer: &mut [u8],
+    filled: &mut u16,
 ) -> crate::std_compat::io::Result<usize> {
-    let mut read = 0;
+    let mut read = core::mem::take(filled) as usize;
     while read < buffer.len() {
         match reader.read(&mut buffer[read..]) {
             Ok(0) => break,
             Ok(n) => read += n,
             Err(e) if e.kind() == ErrorKind::Interrupted => (),
-            Err(e) => return Err(e),
+            Err(e) => {
+                if e.kind() == ErrorKind::WouldBlock {
+                    *filled = read as u16;
+                }
+                return Err(e);
+            }
         }
     }
     Ok(read)
diff --git a/src/readers/multiple_block_reader.rs b/src/readers/multiple_block_reader.rs
index 6e6a5f1..d1f914e 100644
--- a/src/readers/multiple_block_reader.rs
+++ b/src/readers/multiple_block_reader.rs
@@ -22,6 +22,9 @@ pub struct MultipleBlockReader<R> {
     blocks: Buffers,
     max_blocks_to_read: u16,
     finished: bool,
+    // partially read block
+    filled: u16,
+    filled_buffer: u16,
 }
 
 impl<R> MultipleBlockReader<R> {
@@ -38,6 +41,8 @@ impl<R> MultipleBlockReader<R> {
             blocks,
             max_blocks_to_read,
             finished: false,
+            filled: 0,
+            filled_buffer: 0,
         }
     }
 }
@@ -103,18 +108,26 @@ where
             return Ok(None);
         }
 
-        let block_buffer = if let Some(b) = self.blocks.iter_mut().find(|b| b.index.is_none()) {
-            b
+        let position = if self.filled > 0 {
+            self.filled_buffer as usize
+        } else if let Some(p) = self.blocks.iter().position(|b| b.index.is_none()) {
+            p
         } else {
             let data = new_data_block(self.block_size);
             #[allow(clippy::let_unit_value)]
             let _ = self.blocks.push(Buffer { data, index: None });
-            self.blocks.last_mut().expect("last block")
+            self.blocks.len() - 1
         };
+        self.filled_buffer = position as u16;
+        let block_buffer = self.blocks.get_mut(position).expect("block buffer");
 
         trace!("Reading block {index}");
 
-        let read = read_full(&mut self.reader, &mut block_buffer.data)?;
+        let read = read_full(
+            &mut self.reader,
+            &mut block_buffer.data,
+            &mut self.filled,
+        )?;
         block_buffer.data.truncate(read);
 
         buffer
diff --git a/src/readers/multiple_block_seek_reader.rs b/src/readers/multiple_block_seek_reader.rs
index 2418b60..55a7a9a 100644
--- a/src/readers/multiple_block_seek_reader.rs
+++ b/src/readers/multiple_block_seek_reader.rs
@@ -62,6 +62,7 @@ where
                         expected: self.block_size as usize,
                     }
                 })?,
+                &mut 0,
             )?;
 
             self.current_block = if self.block_read_confirmed > 0 {
@@ -92,6 +93,7 @@ where
                         expected: self.block_size as usize,
                     }
                 })?,
+                &mut 0,
             )?;
 
             self.current_block = index;
@@ -123,6 +125,7 @@ where
                     expected: self.block_size as usize,
                 }
             })?,
+            &mut 0,
         )?;
 
         if read < self.block_size as usize {
diff --git a/src/readers/single_block_reader.rs b/src/readers/single_block_reader.rs
index 6064026..4044958 100644
--- a/src/readers/single_block_reader.rs
+++ b/src/readers/single_block_reader.rs
@@ -19,6 +19,7 @@ pub struct SingleBlockReader<R> {
     last_block_size: Option<u16>,
     buffer: DataBlock,
     finished: bool,
+    filled: u16,
 }
 
 impl<R> SingleBlockReader<R> {
@@ -31,6 +32,7 @@ impl<R> SingleBlockReader<R> {
             last_block_size: None,
             buffer: new_data_block(block_size),
             finished: false,
+            filled: 0,
         }
     }
 }
@@ -66,7 +68,7 @@ where
 
         trace!("Reading block {}", self.block_read + 1);
 
-        let read = read_full(&mut self.reader, &mut self.buffer)?;
+        let read = read_full(&mut self.reader, &mut self.buffer, &mut self.filled)?;
         self.buffer.truncate(read);
 
         buffer
-- 
2.43.0


From 0d6cfbba1033c9cb56554a4ce22604d4ef2db9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 24/30] fix: refuse signing keys of a wrong length and overlong
 keys

A base64 text of any length was accepted as signing key: a shorter one was
extended with zeros, so that the path of a key file could be taken for a
(guessable) key, and the end of a longer one was ignored. The encryption key
of 32 chars which the command line documents keeps working.
---
 src/encryption.rs               | 13 ++++++++++---
 std-binary/src/config.rs        |  5 ++---
 std-binary/src/encryption_io.rs |  8 ++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index c98bc3c..8187c74 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -365,7 +365,14 @@ pub fn decode_private_key(data: &[u8]) -> Result<PrivateKey, EncryptionError> {
 }
 
 pub fn decode_signing_key(data: &[u8]) -> Result<SigningKey, EncryptionError> {
-    decode(data, EncodingErrorType::PrivateKey)
+    let mut private_bytes = [0; MAX_EXTENSION_VALUE_SIZE as usize];
+    let size = ENGINE
+        .decode_slice(data, &mut private_bytes)
+        .map_err(|_| EncryptionError::Decode(EncodingErrorType::PrivateKey))?;
+    let bytes: [u8; ENCRYPTION_KEY_SIZE as usize] = private_bytes[..size]
+        .try_into()
+        .map_err(|_| EncryptionError::Decode(EncodingErrorType::PrivateKey))?;
+    Ok(bytes.into())
 }
 
 pub fn decode_nonce(data: &[u8]) -> Result<Nonce, EncryptionError> {
@@ -449,10 +456,10 @@ fn decode<Output: From<[u8; CAP]>, const CAP: usize>(
     error_type: EncodingErrorType,
 ) -> Result<Output, EncryptionError> {
     let mut remote = [0; { MAX_EXTENSION_VALUE_SIZE as usize }];
-    ENGINE
+    let size = ENGINE
         .decode_slice(data, &mut remote)
         .map_err(|_| EncryptionError::Decode(error_type))?;
-    if remote[CAP] != 0 {
+    if size > CAP {
         return Err(EncryptionError::Decode(error_type));
     }
     let remote: [u8; CAP] = remote[..CAP]
diff --git a/std-binary/src/config.rs b/std-binary/src/config.rs
index 28654a8..392a67c 100644
--- a/std-binary/src/config.rs
+++ b/std-binary/src/config.rs
@@ -65,10 +65,9 @@ impl ClientCliConfig {
         let encryption_key: Option<EncryptionKey> = self
             .encryption_key
             .as_deref()
-            .map(crate::encryption_io::read_private_value_or_file)
+            .map(crate::encryption_io::read_encryption_key)
             .transpose()
-            .map_err(|e| BinError::from(e.to_string()))?
-            .map(|s| s.to_bytes());
+            .map_err(|e| BinError::from(e.to_string()))?;
 
         #[cfg(not(feature = "encryption"))]
         let encryption_key = None;
diff --git a/std-binary/src/encryption_io.rs b/std-binary/src/encryption_io.rs
index e8ab17f..3197082 100644
--- a/std-binary/src/encryption_io.rs
+++ b/std-binary/src/encryption_io.rs
@@ -3,6 +3,7 @@ use std::fs::File as StdFile;
 use log::warn;
 use rand::CryptoRng;
 use rand::RngCore;
+use tftp_dus::encryption::decode_private_key;
 use tftp_dus::encryption::decode_signing_key;
 use tftp_dus::encryption::EncryptionKey;
 use tftp_dus::encryption::SigningKey;
@@ -79,6 +80,13 @@ pub fn read_private_value_or_file(private: &str) -> Result<SigningKey, Encryptio
     result
 }
 
+pub fn read_encryption_key(key: &str) -> Result<EncryptionKey, EncryptionError> {
+    read_private_value_or_file(key)
+        .map(|k| k.to_bytes())
+        // key of 32 chars does not fill all of the bytes
+        .or_else(|_| decode_private_key(key.as_bytes()).map(|k| k.to_bytes()))
+}
+
 pub fn handle_hosts_file(
     known_hosts_file: Option<&str>,
     remote_key: Option<VerifyingKey>,
-- 
2.43.0


From 6ef9f5c52413b4e298b9cdde75d2714bb1d11409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 25/30] fix: report key and host files which cannot be read

The same read error was met again and again, for example for a directory, and
the program never came back.
---
 src/key_management.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/key_management.rs b/src/key_management.rs
index 4f790f2..c803798 100644
--- a/src/key_management.rs
+++ b/src/key_management.rs
@@ -2,6 +2,7 @@ use crate::encryption::*;
 use crate::error::BoxedError;
 use crate::error::BoxedResult;
 use crate::std_compat::io::BufRead;
+use crate::std_compat::io::ErrorKind;
 use crate::std_compat::io::Write;
 
 #[cfg(all(feature = "alloc", feature = "encryption"))]
@@ -13,8 +14,11 @@ pub type AuthorizedKeys = heapless::Vec<VerifyingKey, { crate::config::MAX_CLIEN
 pub fn read_authorized_keys(reader: impl BufRead) -> BoxedResult<AuthorizedKeys> {
     let mut authorized_keys = AuthorizedKeys::new();
     for line in reader.lines() {
-        let Ok(line) = line else {
-            continue;
+        let line = match line {
+            Ok(line) => line,
+            // not a text
+            Err(e) if e.kind() == ErrorKind::InvalidData => continue,
+            Err(e) => return Err(e.into()),
         };
         if line.starts_with('#') || line.trim().is_empty() {
             continue;
@@ -30,8 +34,11 @@ pub fn get_from_known_hosts(
     endpoint: &str,
 ) -> BoxedResult<Option<VerifyingKey>> {
     for line in reader.lines() {
-        let Ok(line) = line else {
-            continue;
+        let line = match line {
+            Ok(line) => line,
+            // not a text
+            Err(e) if e.kind() == ErrorKind::InvalidData => continue,
+            Err(e) => return Err(e.into()),
         };
         if line.starts_with('#') || line.trim().is_empty() {
             continue;
-- 
2.43.0


From 8a6056337bdb38b54ee7ee7fbed55aea97e22bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 26/30] fix: serve files whose resolved path is longer than a
 request may be

Without alloc a file in a served directory with a long path could be stored but
not be read again: its resolved path had to fit into the 150 bytes of a file
name.
---
 std-binary/src/io.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index 6fc3fd4..1c433a0 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -42,10 +42,14 @@ pub fn create_writer(path: &FilePath) -> BoxedResult<File> {
 }
 
 pub fn create_reader(path: &FilePath) -> BoxedResult<(Option<u64>, File)> {
-    let file = match StdFile::open(path.as_str()).map_err(from_io_err) {
+    open_file(Path::new(path.as_str()))
+}
+
+fn open_file(path: &Path) -> BoxedResult<(Option<u64>, File)> {
+    let file = match StdFile::open(path).map_err(from_io_err) {
         Ok(f) => f,
         Err(e) => {
-            error!("Unable to open {path}");
+            error!("Unable to open {}", path.display());
             return Err(Into::into(e));
         }
     };
@@ -77,11 +81,8 @@ pub fn create_server_reader(
             return if list_dir {
                 list_directory(&d, &p).map(|(s, l)| (s, ReaderCreator::from_list(l)))
             } else {
-                let file_path = p
-                    .to_str()
-                    .and_then(|s| s.parse().ok())
-                    .ok_or(FileError::InvalidFileName)?;
-                create_reader(&file_path).map(|(s, f)| (s, ReaderCreator::from_file(f)))
+                // resolved path can be longer than the requested one
+                open_file(&p).map(|(s, f)| (s, ReaderCreator::from_file(f)))
             };
         }
     }
-- 
2.43.0


From 9745abc2ea53b938cdabb8db86e1a27d6a2175c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 27/30] fix: only send regular files when a file is created
 while syncing

---
 std-binary/src/sync.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/std-binary/src/sync.rs b/std-binary/src/sync.rs
index a52d4c3..56768c5 100644
--- a/std-binary/src/sync.rs
+++ b/std-binary/src/sync.rs
@@ -3,6 +3,7 @@ use core::sync::atomic::Ordering;
 use core::time::Duration;
 use std::collections::HashMap;
 use std::fs::canonicalize;
+use std::fs::symlink_metadata;
 use std::path::PathBuf;
 use std::sync::mpsc::channel;
 use std::sync::Arc;
@@ -57,6 +58,12 @@ pub fn start_sync(
                     continue;
                 };
 
+                // links, pipes and the like are never written through this event
+                if !is_regular_file(&local_path) {
+                    debug!("{local_path} is not a regular file. Ignoring");
+                    continue;
+                }
+
                 debug!("File {local_path} created. Starting to send as {remote_path}");
 
                 let sender_config = config.clone();
@@ -132,6 +139,10 @@ pub fn start_sync(
     Ok(())
 }
 
+fn is_regular_file(path: &str) -> bool {
+    symlink_metadata(path).is_ok_and(|m| m.is_file())
+}
+
 fn get_paths(local_paths: &[PathBuf], sync_dir: &PathBuf) -> Option<(String, String)> {
     let Some(local_path) = local_paths.first() else {
         warn!("Unable to retrieve path for a created file. Ignoring");
-- 
2.43.0


From ab3aaba2e8f20a89ede6c08dfad69605714e219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:33 +0000
Subject: [PATCH 28/30] fix: send files which are written again with
 --start-on-create

---
 std-binary/src/sync.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/std-binary/src/sync.rs b/std-binary/src/sync.rs
index 56768c5..0f0567c 100644
--- a/std-binary/src/sync.rs
+++ b/std-binary/src/sync.rs
@@ -93,7 +93,7 @@ pub fn start_sync(
                     EventKind::Access(AccessKind::Close(AccessMode::Write))
                 ) =>
             {
-                let Some((local_path, _)) = get_paths(&event.paths, &sync_dir) else {
+                let Some((local_path, remote_path)) = get_paths(&event.paths, &sync_dir) else {
                     continue;
                 };
 
@@ -102,7 +102,9 @@ pub fn start_sync(
                 if let Some(f) = paths_pending.remove(&local_path) {
                     f.store(true, Ordering::Release);
                 } else {
-                    warn!("Unknown file {local_path} ignoring");
+                    // the file existed before and was written again
+                    debug!("File {local_path} was modified. Starting to send as {remote_path}");
+                    spawn_send(config.clone(), local_path, remote_path);
                 }
             }
             // start once the file is written
@@ -118,19 +120,7 @@ pub fn start_sync(
 
                 debug!("File {local_path} finished writing. Starting to send as {remote_path}");
 
-                let sender_config = config.clone();
-
-                spawn(move || {
-                    if let Err(e) = start_send(
-                        local_path.clone(),
-                        remote_path.into(),
-                        sender_config,
-                        create_reader,
-                        false,
-                    ) {
-                        error!("Failed to synchronize file {local_path}: {e}");
-                    }
-                });
+                spawn_send(config.clone(), local_path, remote_path);
             }
             (Ok(event), _) => debug!("Event received {event:?}"),
             _ => continue,
@@ -139,6 +129,20 @@ pub fn start_sync(
     Ok(())
 }
 
+fn spawn_send(config: ClientCliConfig, local_path: String, remote_path: String) {
+    spawn(move || {
+        if let Err(e) = start_send(
+            local_path.clone(),
+            remote_path.into(),
+            config,
+            create_reader,
+            false,
+        ) {
+            error!("Failed to synchronize file {local_path}: {e}");
+        }
+    });
+}
+
 fn is_regular_file(path: &str) -> bool {
     symlink_metadata(path).is_ok_and(|m| m.is_file())
 }
-- 
2.43.0


From 9061517c9b0e42a99a7e7c33fb771fbd0e27d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 29/30] fix: take only an empty read for the end of a file
 being written

---
 std-binary/src/blocking_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/std-binary/src/blocking_reader.rs b/std-binary/src/blocking_reader.rs
index ac79736..9568577 100644
--- a/std-binary/src/blocking_reader.rs
+++ b/std-binary/src/blocking_reader.rs
@@ -66,12 +66,17 @@ impl<R: Read> Read for BlockingReader<R> {
             }
             Ok(n) if expected_size == n => Ok(n),
             Ok(n) => {
-                if finished {
+                if finished && n == temp_len {
                     return Ok(n);
                 }
 
                 self.temp_buf = buffer[..n].to_vec();
 
+                // only an empty read is the end of a finished source
+                if finished {
+                    return self.read(buffer);
+                }
+
                 trace!("Not enough data: read {n} expected {expected_size}");
 
                 Err(Error::from(ErrorKind::WouldBlock))
-- 
2.43.0


From 57d2f701194f72e0e9620ccfe54ca63fa57e6a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 30/30] fix: ignore datagrams which reach the socket of a
 session before it is connected

---
 std-binary/src/socket.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/std-binary/src/socket.rs b/std-binary/src/socket.rs
index 024f9bf..cfe94fc 100644
--- a/std-binary/src/socket.rs
+++ b/std-binary/src/socket.rs
@@ -132,6 +132,7 @@ pub fn create_bound_socket(
     let socket = UdpBoundSocket {
         socket,
         poller,
+        endpoint,
         socket_id,
         // TODO alloc in stack
         events: Events::with_capacity(NonZeroUsize::new(1).unwrap()),
@@ -235,6 +236,7 @@ impl ToSocketId for UdpUnboundSocket {
 
 pub struct UdpBoundSocket {
     socket: UdpSocket,
+    endpoint: SocketAddr,
     poller: Poller,
     socket_id: usize,
     events: Events,
@@ -251,7 +253,13 @@ impl BoundSocket for UdpBoundSocket {
                 .wait(&mut self.events, d.into())
                 .map_err(from_io_err)?;
         }
-        self.socket.recv(buff).map_err(from_io_err)
+        // datagrams of others can be queued while the socket is bound but not connected yet
+        loop {
+            let (size, from) = self.socket.recv_from(buff).map_err(from_io_err)?;
+            if (from.ip(), from.port()) == (self.endpoint.ip(), self.endpoint.port()) {
+                return Ok(size);
+            }
+        }
     }
 
     fn send(&self, buff: &mut DataBuffer) -> io::Result<usize> {
-- 
2.43.0

