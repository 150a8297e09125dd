From 71570fc5e1c7bac4f09c50ab853b830ba0d11fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 01/18] sim: accessors for the simulation harness behind
 cfg(meerkat_sim)

---
 src/store/block_index.rs    | 12 ++++++++++++
 src/store/encoding/mod.rs   |  5 +++++
 src/store/io/mod.rs         | 26 ++++++++++++++++++++++++++
 src/store/mod.rs            | 12 ++++++++++++
 src/store/segment_writer.rs | 19 +++++++++++++++++++
 src/store/sim_api.rs        | 30 ++++++++++++++++++++++++++++++
 6 files changed, 104 insertions(+)
 create mode 100644 src/store/sim_api.rs

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 267f1b6..de860e4 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -49,3 +49,15 @@ impl BlockIndex {
         })
     }
 }
+
+#[cfg(meerkat_sim)]
+impl BlockIndex {
+    /// (last row id, end offset) of every block, in the order they were indexed.
+    pub fn sim_entries(&self) -> Vec<(u32, u64)> {
+        self.block_row_id
+            .iter()
+            .copied()
+            .zip(self.block_offset.iter().copied())
+            .collect()
+    }
+}
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index ca51f5f..656e61d 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -122,6 +122,11 @@ where
     }
 }
 
+#[cfg(meerkat_sim)]
+pub mod sim_hooks {
+    pub use super::bitmap_rle::decode as decode_validity;
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index 4d76897..8185260 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -122,6 +122,32 @@ where
     }
 }
 
+#[cfg(meerkat_sim)]
+pub mod sim_hooks {
+    use super::*;
+
+    pub use super::unix_disk_block_reader::Reader;
+
+    pub fn block_range(start: u64, end: u64) -> BlockRange {
+        BlockRange { start, end }
+    }
+
+    pub fn read_op(start: u64, end: u64, op_info: OpInfo) -> ReadOp {
+        ReadOp {
+            block_range: block_range(start, end),
+            op_info,
+        }
+    }
+
+    pub fn block_parts<Buf: AsRef<[u8]>>(block: Block<Buf>) -> (Buf, OpInfo) {
+        (block.buf, block.op_info)
+    }
+
+    pub fn error_parts(error: BlockError) -> (io::Error, OpInfo) {
+        (error.error, error.op_info)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use futures::StreamExt;
diff --git a/src/store/mod.rs b/src/store/mod.rs
index 6dd47b7..63bb621 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -11,11 +11,23 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+// `meerkat_sim` is only set by the deterministic simulation harness.
+#![allow(unexpected_cfgs)]
+
 mod block_index;
 mod block_sink;
 mod encoding;
 mod index;
 mod indexing_buffer;
 mod io;
+#[cfg(not(meerkat_sim))]
 mod segment_metadata;
+#[cfg(meerkat_sim)]
+pub mod segment_metadata {
+    // generated from segment_metadata.proto by the simulation harness, as
+    // build.rs does for the server.
+    include!(concat!(env!("OUT_DIR"), "/segment_metadata.rs"));
+}
 mod segment_writer;
+#[cfg(meerkat_sim)]
+pub mod sim_api;
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..2690fe4 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -255,6 +255,25 @@ impl SegmentWriter {
     }
 }
 
+#[cfg(meerkat_sim)]
+impl SegmentWriter {
+    pub async fn sim_close(&mut self) -> Result<()> {
+        self.close().await
+    }
+
+    pub async fn sim_sync(self) -> Result<()> {
+        self.sync().await
+    }
+
+    pub fn sim_block_index(&self) -> &BlockIndex {
+        &self.block_index
+    }
+
+    pub fn sim_data_pos(&self) -> u64 {
+        self.data_writer.pos()
+    }
+}
+
 /// Used to write a single column to the segment.
 pub struct ColumnWriter<'a, B> {
     column_info: ColumnInfo,
diff --git a/src/store/sim_api.rs b/src/store/sim_api.rs
new file mode 100644
index 0000000..62e85af
--- /dev/null
+++ b/src/store/sim_api.rs
@@ -0,0 +1,30 @@
+// Copyright 2021 The Meerkat Authors
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! What the deterministic simulation harness needs to drive the store.
+//! Compiled only with `--cfg meerkat_sim`.
+
+pub use super::block_index::BlockIndex;
+pub use super::block_sink::BlockSinkImpl;
+pub use super::encoding::sim_hooks::decode_validity;
+pub use super::encoding::{
+    new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
+    BlockEncoder, BlockSink,
+};
+pub use super::indexing_buffer::{
+    BinaryBuffer, Float64Buffer, Int32Buffer, Int64Buffer, PrimitiveBuffer, Uint64Buffer,
+};
+pub use super::io::sim_hooks::{block_parts, block_range, error_parts, read_op, Reader};
+pub use super::io::{Block, BlockError, BlockRange, BlockReader, BlockWriter, OpInfo, ReadOp};
+pub use super::segment_metadata;
+pub use super::segment_writer::{ColumnInfo, ColumnWriter, SegmentInfo, SegmentWriter};
-- 
2.43.0


From 588c0823b3160633e0e36c30218dcb4838514cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 02/18] fix: clear the bits of a reused validity bitmap

Bitmap::clear() kept the stored bytes and append() only ever sets bits, so
a null appended after clear() read back as a value when the slot had held
one before.
---
 src/store/indexing_buffer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..8b467c8 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,8 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        // append() only sets bits, so the old ones must not survive.
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From 40e6930dc0fc474f169e9e4cb3d5224d3eef3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 03/18] fix: chunk positions of a binary buffer are absolute

chunk() returned the end position relative to start_pos, so from the second
chunk of a batch on rows were lost, encoded twice or with another row's
length, and encode() could loop forever.
---
 src/store/encoding/raw/binary_enc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..1acd4a1 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -237,7 +237,8 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        // find_position counts from start_pos.
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From 23a2d8a3859b5420c75c146e41bf42572b278cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 04/18] fix: compare the carried over values with the block
 size in bytes

encode() compared the number of carried over values with a size in bytes,
so it returned with rows of the batch neither stored nor carried over, and
a later batch underflowed the remaining size.
---
 src/store/encoding/raw/primitive_enc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..9c2a95c 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -112,7 +112,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut validity_pos = 0;
 
         if self.remaining.len() > 0 {
-            let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
+            let remaining_size = self.remaining.len() * size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
 
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From ce5e6fb52c2d648e2582431b744ace4d6394b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 05/18] fix: encode any number of lengths in a binary block

num_bits() takes exactly 128 values and panics on anything else, so a block
of more than 128 values, or of none, brought the writer down.
---
 src/store/encoding/offsets.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..c47a2e8 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -39,7 +39,12 @@ impl OffsetEncoder {
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        // the bitpacker takes exactly one block at a time.
+        let num_bits = src
+            .chunks(BitPacker4x::BLOCK_LEN)
+            .map(|chunk| self.bitpacker.num_bits(chunk))
+            .max()
+            .unwrap_or(0);
 
         dst.push(num_bits);
 
-- 
2.43.0


From 844880a757ba8686d6306bdb56d60010107c3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 06/18] fix: keep all of the bit-packed lengths of a binary
 block

BitPacker4x interleaves four lanes, so cutting the packed data off after
ceil(bits * values / 8) bytes removed bits of real values, not padding.
---
 src/store/encoding/offsets.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index c47a2e8..be73848 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -27,6 +27,8 @@ impl OffsetEncoder {
     }
 
     /// Encode a list of offsets into a Vec.
+    /// The list is padded with zeros to a multiple of the bitpacker's block
+    /// length; its layout is interleaved, so the padding has to be kept.
     /// ```text
     /// ┌───────────────────┬─────────────────────────┐
     /// │ Bitpack Num Bytes │ Bitpacked Delta Offsets │
@@ -34,8 +36,6 @@ impl OffsetEncoder {
     /// └───────────────────┴─────────────────────────┘
     /// ```
     pub fn encode(&mut self, src: &mut Vec<u32>, dst: &mut Vec<u8>) {
-        let num_values = src.len();
-
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
@@ -60,10 +60,5 @@ impl OffsetEncoder {
                 .compress(chunk, &mut dst[chunk_start..], num_bits);
             chunk_start += compressed_len;
         }
-
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
-
-        dst.resize(encoded_data_len, 0);
     }
 }
-- 
2.43.0


From 09feb3df38ce30cdbfbc20c85343cfe2be41bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 07/18] fix: count the rows of a nullable block once

encode_*_buffer() reported the position in the batch's validity bitmap as
the number of rows of the block, so from the second block of a batch on the
last row ids in the block index counted rows twice.
---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 1acd4a1..3876755 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -208,7 +208,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 9c2a95c..04fba57 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -186,7 +186,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From cd8b1ff66a0d0dcc7f2c15013354de7f0a4e2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 08/18] fix: store the nulls at the end of a batch

Only the validity bits up to the last value of a batch were copied, so
nulls after it, and batches of nothing but nulls, were silently dropped.
---
 src/store/encoding/bitmap_rle.rs        |  8 ++++++++
 src/store/encoding/raw/binary_enc.rs    | 10 +++++++---
 src/store/encoding/raw/primitive_enc.rs | 14 ++++++++++---
 src/store/indexing_buffer.rs            | 26 +++++++++++++++++++++++--
 4 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/store/encoding/bitmap_rle.rs b/src/store/encoding/bitmap_rle.rs
index 1e3b342..a5ad9f1 100644
--- a/src/store/encoding/bitmap_rle.rs
+++ b/src/store/encoding/bitmap_rle.rs
@@ -80,6 +80,14 @@ impl Encoder {
         bit_pos
     }
 
+    /// encode every bit of the bitmap from `start_pos` on.
+    pub fn put_tail(&mut self, bitmap: &Bitmap, start_pos: usize) -> usize {
+        for bit_pos in start_pos..bitmap.len() {
+            self.put(bitmap.is_set(bit_pos));
+        }
+        bitmap.len()
+    }
+
     /// flush the internal buffer and encode pending values.
     /// once the encoder is flushed use `encoded_values()` to access the encoded
     /// buffer.
diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 3876755..57c02d9 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -125,7 +125,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -162,7 +162,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -203,7 +203,11 @@ fn encode_binary_buffer(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            // the nulls after the last value belong to the last chunk.
+            if chunk.end_pos == buf.len() {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 04fba57..4fe7a37 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -111,7 +111,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -149,11 +149,15 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             validity_pos = result.last_validity_pos;
         }
 
+        // a batch may end with, or consist of, nulls.
+        self.remaining
+            .append_from(buffer, buf_pos, buf_pos, validity_pos);
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -181,7 +185,11 @@ fn encode_primitive_buffer<T: Clone>(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            // the nulls after the last value belong to the last block.
+            if end == buf.len() {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 8b467c8..2e0d27c 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -75,6 +75,14 @@ impl Bitmap {
         bit_pos
     }
 
+    /// Append every item of `src` from `start_pos` on.
+    pub fn append_tail(&mut self, src: &Bitmap, start_pos: usize) -> usize {
+        for bit_pos in start_pos..src.len() {
+            self.append(src.is_set(bit_pos));
+        }
+        src.len()
+    }
+
     pub fn is_set(&self, idx: usize) -> bool {
         assert!(idx < self.len);
         (self.values[idx >> 3] & BIT_MASK[idx & 7]) != 0
@@ -148,7 +156,14 @@ impl<T: Clone> PrimitiveBuffer<T> {
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
 
-            validity_dst.append_from(validity_src, validity_pos, num_values)
+            let last_pos = validity_dst.append_from(validity_src, validity_pos, num_values);
+
+            // the nulls after the last value belong to the last values range.
+            if end == buf.len() {
+                validity_dst.append_tail(validity_src, last_pos)
+            } else {
+                last_pos
+            }
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             num_values
@@ -275,7 +290,14 @@ impl BinaryBuffer {
                 .validity
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
-            validity_dst.append_from(validity_src, validity_pos, chunk_len)
+            let last_pos = validity_dst.append_from(validity_src, validity_pos, chunk_len);
+
+            // the nulls after the last value belong to the last values range.
+            if end == buf.len() {
+                validity_dst.append_tail(validity_src, last_pos)
+            } else {
+                last_pos
+            }
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             chunk_len
-- 
2.43.0


From c7adf837c42cde61e601488f8fbd43793fec6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 09/18] fix: make the directory entries of a synced segment
 durable

sync() only synced the contents of the two files. Their names live in the
directory, which was never synced, so a power loss could leave an
acknowledged segment without its files.
---
 src/store/segment_writer.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 2690fe4..28e0d27 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -92,6 +92,7 @@ use std::path::Path;
 
 use anyhow::{Context, Result};
 use prost::Message;
+use tokio::fs::File;
 use uuid::Uuid;
 
 use crate::store::block_index::BlockIndex;
@@ -131,6 +132,7 @@ pub struct SegmentInfo {
 
 /// Write segments to disk.
 pub struct SegmentWriter {
+    dir: File,
     data_writer: BlockWriter,
     index_writer: BlockWriter,
     block_index: BlockIndex,
@@ -151,6 +153,15 @@ impl SegmentWriter {
         let data_path = path.as_ref().join(&data_file_name);
         let index_path = path.as_ref().join(&index_file_name);
 
+        let dir_path = match path.as_ref() {
+            path if path.as_os_str().is_empty() => Path::new("."),
+            path => path,
+        };
+
+        let dir = File::open(dir_path)
+            .await
+            .context("cannot open segment directory")?;
+
         let index_writer = BlockWriter::new(index_path)
             .await
             .context("cannot create index writer")?;
@@ -160,6 +171,7 @@ impl SegmentWriter {
             .context("cannot create data writer")?;
 
         let mut segment_writer = Self {
+            dir: dir,
             data_writer: data_writer,
             index_writer: index_writer,
             block_index: BlockIndex::new(),
@@ -242,7 +254,8 @@ impl SegmentWriter {
             .context("cannot flush data file")
     }
 
-    /// Sync all in-memory data to disk.
+    /// Sync all in-memory data to disk, including the directory entries of
+    /// both files.
     async fn sync(mut self) -> Result<()> {
         self.index_writer
             .sync()
@@ -251,7 +264,11 @@ impl SegmentWriter {
         self.data_writer
             .sync()
             .await
-            .context("cannot sync data file")
+            .context("cannot sync data file")?;
+        self.dir
+            .sync_all()
+            .await
+            .context("cannot sync segment directory")
     }
 }
 
-- 
2.43.0


From 39410f0c753c119e66c8dccf9c0563c664eaf3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 10/18] fix: report a failed pending write when a block file is
 synced

tokio's File::sync_all() waits for the write in flight but swallows its
error, so a block that never reached the disk was reported as synced.
---
 src/store/io/default_block_writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index c9b14f1..cbc8917 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -48,6 +48,8 @@ impl Writer {
     /// This function will attempt to ensure that all in-core data reaches
     /// the filesystem before returning.
     pub async fn sync(&mut self) -> std::io::Result<()> {
+        // sync_all() waits for a pending write but drops its error.
+        self.file.flush().await?;
         self.file.sync_all().await
     }
 
-- 
2.43.0


From c569b695a563af65e21e1b7f1e8527569ae09040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 11/18] fix: reject block ranges outside of the file

read_block() allocated a buffer of whatever size the range asked for before
reading: an absurd or inverted range panicked or aborted the process, and an
empty range past the end succeeded.
---
 src/store/io/unix_disk_block_reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/store/io/unix_disk_block_reader.rs b/src/store/io/unix_disk_block_reader.rs
index a5fa3ee..57e6cc7 100644
--- a/src/store/io/unix_disk_block_reader.rs
+++ b/src/store/io/unix_disk_block_reader.rs
@@ -62,6 +62,14 @@ impl BlockReader for Reader {
     async fn read_block(&self, range: BlockRange) -> io::Result<Self::Buf> {
         let file = self.file.clone();
         asyncify(move || {
+            // the file may have grown since it was opened.
+            if range.start > range.end || range.end > file.metadata()?.len() {
+                return Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "block range outside of the file",
+                ));
+            }
+
             let buf_len = range.end - range.start;
             let mut buf: Vec<u8> = vec![0; buf_len as usize];
             file.read_exact_at(buf.as_mut_slice(), range.start)
-- 
2.43.0


From 08d54fed9833057b36ab488a7e6c07bc11eb8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 12/18] fix: never reuse the file of a dropped block writer

A dropped writer may leave a write running in the background. Creating the
file again truncated and reused it, so that write landed in the file of the
next attempt and was reported as part of a synced segment.
---
 src/store/io/default_block_writer.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index cbc8917..bc8aad6 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -11,6 +11,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::fs;
+use std::io::ErrorKind;
 use std::path::Path;
 
 use tokio::fs::File;
@@ -28,9 +30,27 @@ pub struct Writer {
 }
 
 impl Writer {
+    /// Create an empty file, replacing an existing one.
+    ///
+    /// A writer that was dropped may still have a write in flight, so its file
+    /// is never reused but unlinked. Both steps are done in place: one left in
+    /// the background by a dropped future could hit the file of the next
+    /// writer.
     pub async fn new(path: impl AsRef<Path>) -> std::io::Result<Self> {
-        let file = File::create(path).await?;
-        Ok(Self { file: file, pos: 0 })
+        match fs::remove_file(&path) {
+            Err(err) if err.kind() != ErrorKind::NotFound => return Err(err),
+            _ => {}
+        }
+
+        let file = fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(path)?;
+
+        Ok(Self {
+            file: File::from_std(file),
+            pos: 0,
+        })
     }
 
     /// Write a single block to disk.
-- 
2.43.0


From d6ef724782c920d6e433fabfdfd8a9fc16f12efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 13/18] sim: record the block index a column flushes (cfg
 meerkat_sim)

---
 src/store/block_index.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index de860e4..185c6ee 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -20,6 +20,8 @@ use crate::store::segment_metadata::{BlockIndexLayout, Range};
 pub struct BlockIndex {
     block_offset: Vec<u64>,
     block_row_id: Vec<u32>,
+    #[cfg(meerkat_sim)]
+    sim_flushed: std::sync::Mutex<Vec<(u32, u64)>>,
 }
 
 impl BlockIndex {
@@ -27,6 +29,8 @@ impl BlockIndex {
         Self {
             block_offset: Vec::new(),
             block_row_id: Vec::new(),
+            #[cfg(meerkat_sim)]
+            sim_flushed: Default::default(),
         }
     }
 
@@ -44,6 +48,9 @@ impl BlockIndex {
 
     /// flush the index to disk.
     pub async fn flush(&self, block_writer: &mut BlockWriter) -> Result<BlockIndexLayout> {
+        #[cfg(meerkat_sim)]
+        self.sim_flush();
+
         Ok(BlockIndexLayout {
             range: Some(Range { start: 0, end: 0 }),
         })
@@ -60,4 +67,13 @@ impl BlockIndex {
             .zip(self.block_offset.iter().copied())
             .collect()
     }
+
+    fn sim_flush(&self) {
+        *self.sim_flushed.lock().unwrap() = self.sim_entries();
+    }
+
+    /// The entries of the last flush, which stand for what it stores.
+    pub fn sim_flushed(&self) -> Vec<(u32, u64)> {
+        self.sim_flushed.lock().unwrap().clone()
+    }
 }
-- 
2.43.0


From 7f86c1052b38936e428f95b34edac73d60b46cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 14/18] sim: second way to see the block index (cfg
 meerkat_sim_log)

---
 src/store/block_index.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 185c6ee..6c9042b 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -22,6 +22,8 @@ pub struct BlockIndex {
     block_row_id: Vec<u32>,
     #[cfg(meerkat_sim)]
     sim_flushed: std::sync::Mutex<Vec<(u32, u64)>>,
+    #[cfg(meerkat_sim_log)]
+    sim_log: Vec<(u32, u64)>,
 }
 
 impl BlockIndex {
@@ -31,6 +33,8 @@ impl BlockIndex {
             block_row_id: Vec::new(),
             #[cfg(meerkat_sim)]
             sim_flushed: Default::default(),
+            #[cfg(meerkat_sim_log)]
+            sim_log: Vec::new(),
         }
     }
 
@@ -38,12 +42,16 @@ impl BlockIndex {
     pub fn index_block(&mut self, row_id: u32, offset: u64) {
         self.block_offset.push(offset);
         self.block_row_id.push(row_id);
+        #[cfg(meerkat_sim_log)]
+        self.sim_log.push((row_id, offset));
     }
 
     /// clear the index
     pub fn clear(&mut self) {
         self.block_row_id.clear();
         self.block_offset.clear();
+        #[cfg(meerkat_sim_log)]
+        self.sim_log.clear();
     }
 
     /// flush the index to disk.
@@ -60,6 +68,7 @@ impl BlockIndex {
 #[cfg(meerkat_sim)]
 impl BlockIndex {
     /// (last row id, end offset) of every block, in the order they were indexed.
+    #[cfg(not(meerkat_sim_log))]
     pub fn sim_entries(&self) -> Vec<(u32, u64)> {
         self.block_row_id
             .iter()
@@ -68,6 +77,12 @@ impl BlockIndex {
             .collect()
     }
 
+    /// The calls instead of the fields, for a tree that stores them otherwise.
+    #[cfg(meerkat_sim_log)]
+    pub fn sim_entries(&self) -> Vec<(u32, u64)> {
+        self.sim_log.clone()
+    }
+
     fn sim_flush(&self) {
         *self.sim_flushed.lock().unwrap() = self.sim_entries();
     }
-- 
2.43.0


From b59ff96f1826512df2ba49000fffdf1f2cf3722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 15/18] fix: refuse a block writer whose write or sync failed

A failed or abandoned write leaves the file short of the writer's position,
and a failed sync is not reported again by the next one. A client that went
on nevertheless got files with holes, a missing signature or lost blocks
acknowledged by close() and sync().
---
 src/store/io/default_block_writer.rs | 31 +++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index bc8aad6..799e38d 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -12,7 +12,7 @@
 // limitations under the License.
 
 use std::fs;
-use std::io::ErrorKind;
+use std::io::{Error, ErrorKind};
 use std::path::Path;
 
 use tokio::fs::File;
@@ -27,6 +27,9 @@ use tokio::io::AsyncWriteExt;
 pub struct Writer {
     file: File,
     pos: u64,
+    /// A write or sync failed or was dropped half-way: the file doesn't hold
+    /// the blocks up to `pos` and nothing may be built on it.
+    broken: bool,
 }
 
 impl Writer {
@@ -50,18 +53,26 @@ impl Writer {
         Ok(Self {
             file: File::from_std(file),
             pos: 0,
+            broken: false,
         })
     }
 
     /// Write a single block to disk.
     pub async fn write_block(&mut self, block: &[u8]) -> std::io::Result<()> {
+        self.check()?;
+        self.broken = true;
         self.pos += block.len() as u64;
-        self.file.write_all(block).await
+        self.file.write_all(block).await?;
+        self.broken = false;
+        Ok(())
     }
 
     /// Wait for pending operations and flushes all internal buffers.
     pub async fn flush(&mut self) -> std::io::Result<()> {
-        self.file.flush().await
+        self.check()?;
+        let res = self.file.flush().await;
+        self.broken = res.is_err();
+        res
     }
 
     /// Sync all OS-internal metadata to disk.
@@ -69,8 +80,18 @@ impl Writer {
     /// the filesystem before returning.
     pub async fn sync(&mut self) -> std::io::Result<()> {
         // sync_all() waits for a pending write but drops its error.
-        self.file.flush().await?;
-        self.file.sync_all().await
+        self.flush().await?;
+        self.broken = true;
+        self.file.sync_all().await?;
+        self.broken = false;
+        Ok(())
+    }
+
+    fn check(&self) -> std::io::Result<()> {
+        match self.broken {
+            true => Err(Error::new(ErrorKind::Other, "an earlier write failed")),
+            false => Ok(()),
+        }
     }
 
     pub fn pos(&self) -> u64 {
-- 
2.43.0


From c1c55d342190bdb52825e8c1f980db1d38dd5adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 16/18] fix: refuse a column writer that was closed or whose
 write failed

The encoder of a failed or abandoned write is in between two states: the next
write panicked. Closing a column twice stored its last block twice.
---
 src/store/segment_writer.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 28e0d27..37158d8 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -90,7 +90,7 @@
 use std::collections::HashMap;
 use std::path::Path;
 
-use anyhow::{Context, Result};
+use anyhow::{ensure, Context, Result};
 use prost::Message;
 use tokio::fs::File;
 use uuid::Uuid;
@@ -226,6 +226,7 @@ impl SegmentWriter {
             block_sink: block_sink,
             index_writer: &mut self.index_writer,
             column_index: None,
+            open: true,
         })
     }
 
@@ -299,22 +300,33 @@ pub struct ColumnWriter<'a, B> {
     index_writer: &'a mut BlockWriter,
     encoder: Box<dyn BlockEncoder<B, BlockSinkImpl<'a>>>,
     column_index: Option<Box<dyn ColumnIndex<B>>>,
+    /// Cleared while an operation runs: one that fails or is dropped half-way
+    /// leaves the encoder in between two states.
+    open: bool,
 }
 
 impl<'a, B> ColumnWriter<'a, B> {
     /// Index a Buffer.
     pub async fn write(&mut self, buf: &B) -> Result<()> {
+        ensure!(self.open, "column writer closed or failed");
+        self.open = false;
+
         self.encoder.encode(buf, &mut self.block_sink).await?;
 
         if let Some(ref mut column_index) = self.column_index {
             column_index.index(&buf)?;
         }
 
+        self.open = true;
+
         Ok(())
     }
 
     /// Close the ColumnWriter and flush indexes data to disk.
     pub async fn close(&mut self) -> Result<()> {
+        ensure!(self.open, "column writer closed or failed");
+        self.open = false;
+
         let encoder_layout = self.encoder.flush(&mut self.block_sink).await?;
 
         let block_ndex_layout = self
-- 
2.43.0


From 929793be20a77117d173b9aa3abbf823ddfdc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 17/18] fix: refuse a second column of the same name

It replaced the first one in the metadata, whose rows were lost.
---
 src/store/segment_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 37158d8..7469d2b 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -212,6 +212,15 @@ impl SegmentWriter {
         &mut self,
         column_info: ColumnInfo,
     ) -> Result<ColumnWriter<'_, BinaryBuffer>> {
+        ensure!(
+            !self
+                .segment_meta
+                .columns_layout
+                .contains_key(&column_info.name),
+            "duplicate column {:?}",
+            column_info.name
+        );
+
         self.block_index.clear();
 
         let encoder =
-- 
2.43.0


From 24545b622e054a79d840e414a6112173a5235764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 18/18] sim: let the harness attach a column index (cfg
 meerkat_sim)

---
 src/store/segment_writer.rs | 7 +++++++
 src/store/sim_api.rs        | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 7469d2b..bd559b9 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -301,6 +301,13 @@ impl SegmentWriter {
     }
 }
 
+#[cfg(meerkat_sim)]
+impl<'a, B> ColumnWriter<'a, B> {
+    pub fn sim_set_column_index(&mut self, column_index: Box<dyn ColumnIndex<B>>) {
+        self.column_index = Some(column_index);
+    }
+}
+
 /// Used to write a single column to the segment.
 pub struct ColumnWriter<'a, B> {
     column_info: ColumnInfo,
diff --git a/src/store/sim_api.rs b/src/store/sim_api.rs
index 62e85af..3921162 100644
--- a/src/store/sim_api.rs
+++ b/src/store/sim_api.rs
@@ -21,6 +21,7 @@ pub use super::encoding::{
     new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
     BlockEncoder, BlockSink,
 };
+pub use super::index::ColumnIndex;
 pub use super::indexing_buffer::{
     BinaryBuffer, Float64Buffer, Int32Buffer, Int64Buffer, PrimitiveBuffer, Uint64Buffer,
 };
-- 
2.43.0

