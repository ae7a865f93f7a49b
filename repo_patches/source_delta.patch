From 1932558a91f55a3944c947d2285802815cef1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 01/18] hook: scaled-down constants and block type override
 behind cfg(deflate_mc_small)

---
 src/chained_hash_table.rs |  8 ++++++++
 src/compress.rs           |  7 +++++++
 src/huffman_table.rs      |  4 ++++
 src/lib.rs                |  5 +++++
 src/lz77.rs               |  8 ++++++++
 src/mc_hooks.rs           | 38 ++++++++++++++++++++++++++++++++++++++
 src/output_writer.rs      |  4 ++++
 src/stored_block.rs       |  4 ++++
 8 files changed, 78 insertions(+)
 create mode 100644 src/mc_hooks.rs

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 61c3fa2..1eb5957 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -1,8 +1,16 @@
+#[cfg(not(deflate_mc_small))]
 pub const WINDOW_SIZE: usize = 32768;
+// Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+#[cfg(deflate_mc_small)]
+pub const WINDOW_SIZE: usize = 8;
 pub const WINDOW_MASK: usize = WINDOW_SIZE - 1;
 #[cfg(test)]
 pub const HASH_BYTES: usize = 3;
+#[cfg(not(deflate_mc_small))]
 const HASH_SHIFT: u16 = 5;
+// Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+#[cfg(deflate_mc_small)]
+const HASH_SHIFT: u16 = 1;
 const HASH_MASK: u16 = WINDOW_MASK as u16;
 
 /// Helper struct to let us allocate both head and prev in the same block.
diff --git a/src/compress.rs b/src/compress.rs
index 8223609..dce6889 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -9,7 +9,11 @@ use crate::lz77::{lz77_compress_block, LZ77Status};
 use crate::lzvalue::LZValue;
 use crate::stored_block::{compress_block_stored, write_stored_header, MAX_STORED_BLOCK_LENGTH};
 
+#[cfg(not(deflate_mc_small))]
 const LARGEST_OUTPUT_BUF_SIZE: usize = 1024 * 32;
+// Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+#[cfg(deflate_mc_small)]
+const LARGEST_OUTPUT_BUF_SIZE: usize = 8;
 
 /// Flush mode to use when compressing input received in multiple steps.
 ///
@@ -182,6 +186,9 @@ pub fn compress_data_dynamic_n<W: Write>(
             )
         };
 
+        #[cfg(deflate_mc_small)]
+        let res = crate::mc_hooks::choose_block_type(res, current_block_input_bytes);
+
         // Check if we've actually managed to compress the input, and output stored blocks
         // if not.
         match res {
diff --git a/src/huffman_table.rs b/src/huffman_table.rs
index c3670b1..2cd68d6 100644
--- a/src/huffman_table.rs
+++ b/src/huffman_table.rs
@@ -18,7 +18,11 @@ pub const MAX_CODE_LENGTH: usize = 15;
 
 /// The minimum and maximum lengths for a match according to the DEFLATE specification
 pub const MIN_MATCH: u16 = 3;
+#[cfg(not(deflate_mc_small))]
 pub const MAX_MATCH: u16 = 258;
+// Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+#[cfg(deflate_mc_small)]
+pub const MAX_MATCH: u16 = 5;
 
 #[cfg(test)]
 pub const MIN_DISTANCE: u16 = 1;
diff --git a/src/lib.rs b/src/lib.rs
index cdce2cb..0ce6d09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,8 @@
 //! ```
 
 #![forbid(unsafe_code)]
+// For the `deflate_mc_small` cfg, see mc_hooks.rs.
+#![allow(unexpected_cfgs)]
 #![cfg_attr(all(feature = "benchmarks", test), feature(test))]
 
 #[cfg(all(test, feature = "benchmarks"))]
@@ -75,6 +77,9 @@ mod length_encode;
 mod lz77;
 mod lzvalue;
 mod matching;
+#[cfg(deflate_mc_small)]
+#[doc(hidden)]
+pub mod mc_hooks;
 mod output_writer;
 mod rle;
 mod stored_block;
diff --git a/src/lz77.rs b/src/lz77.rs
index 49c712e..e63d21d 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -142,7 +142,11 @@ impl LZ77State {
     }
 }
 
+#[cfg(not(deflate_mc_small))]
 const DEFAULT_WINDOW_SIZE: usize = 32768;
+// Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+#[cfg(deflate_mc_small)]
+const DEFAULT_WINDOW_SIZE: usize = 8;
 
 #[derive(Debug)]
 /// Status after calling `process_chunk`.
@@ -273,7 +277,11 @@ macro_rules! write_literal {
 /// up more space than it would save.
 #[inline]
 fn match_too_far(match_len: usize, match_dist: usize) -> bool {
+    #[cfg(not(deflate_mc_small))]
     const TOO_FAR: usize = 8 * 1024;
+    // Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+    #[cfg(deflate_mc_small)]
+    const TOO_FAR: usize = 4;
     match_len == MIN_MATCH && match_dist > TOO_FAR
 }
 
diff --git a/src/mc_hooks.rs b/src/mc_hooks.rs
new file mode 100644
index 0000000..761db54
--- /dev/null
+++ b/src/mc_hooks.rs
@@ -0,0 +1,38 @@
+//! Hooks for exhaustive state exploration of the encoder.
+//!
+//! This module only exists when the crate is compiled with `--cfg deflate_mc_small`. That
+//! configuration scales down the window, match, token buffer, output buffer and stored block
+//! sizes (keeping their order: `MAX_MATCH` and `MAX_BUFFER_LENGTH` are smaller than `WINDOW_SIZE`),
+//! so that inputs of a few dozen bytes go through every window slide, overlap and full buffer.
+//!
+//! As blocks are then too short for anything but fixed codes to be worthwhile, the choice of the
+//! block type can be overridden here.
+
+use crate::huffman_lengths::BlockType;
+use crate::stored_block::MAX_STORED_BLOCK_LENGTH;
+use std::cell::Cell;
+
+thread_local! {
+    static BLOCK_MODE: Cell<u8> = Cell::new(0);
+}
+
+/// The window size the crate was compiled with.
+pub const WINDOW_SIZE: usize = crate::chained_hash_table::WINDOW_SIZE;
+
+/// Set how block types are chosen on this thread.
+///
+/// * `0`: As usual.
+/// * `1`: Stored whenever the block has between 1 and `MAX_STORED_BLOCK_LENGTH` bytes.
+/// * `2`: As `1`, but only for blocks with an odd number of bytes.
+pub fn set_block_mode(mode: u8) {
+    BLOCK_MODE.with(|m| m.set(mode));
+}
+
+pub(crate) fn choose_block_type(natural: BlockType, input_bytes: u64) -> BlockType {
+    let can_store = input_bytes > 0 && input_bytes <= MAX_STORED_BLOCK_LENGTH as u64;
+    match BLOCK_MODE.with(Cell::get) {
+        1 if can_store => BlockType::Stored,
+        2 if can_store && input_bytes % 2 == 1 => BlockType::Stored,
+        _ => natural,
+    }
+}
diff --git a/src/output_writer.rs b/src/output_writer.rs
index 5ea9e02..7833fae 100644
--- a/src/output_writer.rs
+++ b/src/output_writer.rs
@@ -16,7 +16,11 @@ pub type FrequencyType = u16;
 /// number of literals/lengths output before a new block is started.
 /// This should not be larger than the maximum value `FrequencyType` can represent to prevent
 /// overflowing (which would degrade, or in the worst case break compression).
+#[cfg(not(deflate_mc_small))]
 pub const MAX_BUFFER_LENGTH: usize = 1024 * 31;
+// Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+#[cfg(deflate_mc_small)]
+pub const MAX_BUFFER_LENGTH: usize = 6;
 
 #[derive(Debug, PartialEq)]
 pub enum BufferStatus {
diff --git a/src/stored_block.rs b/src/stored_block.rs
index cef70c6..f85002f 100644
--- a/src/stored_block.rs
+++ b/src/stored_block.rs
@@ -8,7 +8,11 @@ const BLOCK_SIZE: u16 = 32000;
 
 const STORED_FIRST_BYTE: u8 = 0b0000_0000;
 pub const STORED_FIRST_BYTE_FINAL: u8 = 0b0000_0001;
+#[cfg(not(deflate_mc_small))]
 pub const MAX_STORED_BLOCK_LENGTH: usize = (u16::MAX as usize) / 2;
+// Scaled-down value for exhaustive state exploration (see mc_hooks.rs).
+#[cfg(deflate_mc_small)]
+pub const MAX_STORED_BLOCK_LENGTH: usize = 7;
 
 pub fn write_stored_header(writer: &mut LsbWriter, final_block: bool) {
     let header = if final_block {
-- 
2.43.0


From 77d150fa4f5e179c36179274d2f82b255b85e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 02/18] fix: write the zlib/gzip header when flushing before
 the first write

---
 src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 1888a11..86e21be 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -272,6 +272,8 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
     /// This essentially finishes the current block, and sends an additional empty stored block to
     /// the writer.
     fn flush(&mut self) -> io::Result<()> {
+        // The header has to come before the flushed data if nothing has been written yet.
+        self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
     }
 }
@@ -449,6 +451,8 @@ pub mod gzip {
         /// This essentially finishes the current block, and sends an additional empty stored
         /// block to the writer.
         fn flush(&mut self) -> io::Result<()> {
+            // The header has to come before the flushed data if nothing has been written yet.
+            self.check_write_header();
             self.inner.flush()
         }
     }
-- 
2.43.0


From 0aa3d46955eecc1de291d018f5084cea21622ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 03/18] fix: don't add data that was not consumed to the
 checksum

---
 src/writer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 86e21be..26267de 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -256,10 +256,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
         let flush_mode = self.deflate_state.flush_mode;
         let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
         match res {
-            // If this is returned, the whole buffer was consumed
-            Ok(0) => self.checksum.update_from_slice(buf),
-            // Otherwise, only part of it was consumed, so only that part
-            // added to the checksum.
+            // Only the part that was consumed is added to the checksum.
             Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
             _ => (),
         };
@@ -438,7 +435,6 @@ pub mod gzip {
             self.check_write_header();
             let res = self.inner.write(buf);
             match res {
-                Ok(0) => self.checksum.update(buf),
                 Ok(n) => self.checksum.update(&buf[0..n]),
                 _ => (),
             };
-- 
2.43.0


From 6ce8f939371132f0875c8190090f6f7c9cdccf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 04/18] fix: continue correctly after a flush that failed

---
 src/compress.rs | 13 +++++++++++++
 src/writer.rs   |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/compress.rs b/src/compress.rs
index dce6889..da000be 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -305,6 +305,19 @@ pub fn compress_data_dynamic_n<W: Write>(
         deflate_state.needs_flush = false;
     }
 
+    if flush == Flush::None
+        && bytes_written == 0
+        && !input.is_empty()
+        && !deflate_state.lz77_state.is_last_block()
+    {
+        // This call only output data left over from an earlier flush that didn't complete. Ok(0)
+        // would indicate that no more data can be written, so ask the caller to try again.
+        return Err(io::Error::new(
+            io::ErrorKind::Interrupted,
+            "Internal buffer full.",
+        ));
+    }
+
     Ok(bytes_written)
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index 26267de..ce8f00a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -23,7 +23,11 @@ pub fn compress_until_done<W: Write>(
         match compress_data_dynamic_n(input, deflate_state, flush_mode) {
             Ok(0) => {
                 if deflate_state.output_buf().is_empty() {
-                    break;
+                    // If an earlier flush failed, the call may only have output what was left
+                    // from that, so make sure the last block has been output if finishing.
+                    if flush_mode != Flush::Finish || deflate_state.lz77_state.is_last_block() {
+                        break;
+                    }
                 } else {
                     // If the output buffer isn't empty, keep going until it is, as there is still
                     // data to be flushed.
-- 
2.43.0


From 56ecc8be3bf616ff3c217426bf563868d33b27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 05/18] fix: return an error if the writer doesn't accept any
 more data

---
 src/compress.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index da000be..b0c8f14 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -80,6 +80,18 @@ fn write_stored_block(input: &[u8], mut writer: &mut LsbWriter, final_block: boo
     }
 }
 
+/// Write as much of the output as the writer accepts, treating a writer that doesn't accept any
+/// more data as an error, to avoid trying again forever.
+fn write_output<W: Write>(writer: &mut W, output: &[u8]) -> io::Result<usize> {
+    match writer.write(output) {
+        Ok(0) if !output.is_empty() => Err(io::Error::new(
+            io::ErrorKind::WriteZero,
+            "failed to write the compressed data",
+        )),
+        res => res,
+    }
+}
+
 /// Inner compression function used by both the writers and the simple compression functions.
 pub fn compress_data_dynamic_n<W: Write>(
     input: &[u8],
@@ -98,11 +110,10 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
-            let written = deflate_state
-                .inner
-                .as_mut()
-                .expect("Missing writer!")
-                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+            let written = write_output(
+                deflate_state.inner.as_mut().expect("Missing writer!"),
+                &deflate_state.encoder_state.inner_vec()[output_buf_pos..],
+            )?;
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
@@ -285,11 +296,10 @@ pub fn compress_data_dynamic_n<W: Write>(
     // Make sure we've output everything, and return the number of bytes written if everything
     // went well.
     let output_buf_pos = deflate_state.output_buf_pos;
-    let written_to_writer = deflate_state
-        .inner
-        .as_mut()
-        .expect("Missing writer!")
-        .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+    let written_to_writer = write_output(
+        deflate_state.inner.as_mut().expect("Missing writer!"),
+        &deflate_state.encoder_state.inner_vec()[output_buf_pos..],
+    )?;
     if written_to_writer
         < deflate_state
             .output_buf()
-- 
2.43.0


From bcf8871fd62165615ac225e09591c1dc0b8addf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 06/18] fix: don't return an error after having consumed some
 of the input

---
 src/compress.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index b0c8f14..9f145e9 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -110,10 +110,16 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
-            let written = write_output(
+            let written = match write_output(
                 deflate_state.inner.as_mut().expect("Missing writer!"),
                 &deflate_state.encoder_state.inner_vec()[output_buf_pos..],
-            )?;
+            ) {
+                Ok(n) => n,
+                // Returning an error means that none of the input was consumed. If we already
+                // consumed some of it, any lasting problem will turn up again in the next call.
+                Err(_) if bytes_written > 0 => return Ok(bytes_written),
+                Err(e) => return Err(e),
+            };
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
-- 
2.43.0


From a0e260fec34b887812026f4af1f9cff219929828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 07/18] fix: don't repeat the trailer when writing it has to be
 retried

---
 src/writer.rs | 53 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index ce8f00a..27765c9 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -188,6 +188,7 @@ pub struct ZlibEncoder<W: Write> {
     deflate_state: DeflateState<W>,
     checksum: Adler32Checksum,
     header_written: bool,
+    trailer_written: bool,
 }
 
 impl<W: Write> ZlibEncoder<W> {
@@ -197,6 +198,7 @@ impl<W: Write> ZlibEncoder<W> {
             deflate_state: DeflateState::new(options.into(), writer),
             checksum: Adler32Checksum::new(),
             header_written: false,
+            trailer_written: false,
         }
     }
 
@@ -222,6 +224,7 @@ impl<W: Write> ZlibEncoder<W> {
     pub fn reset(&mut self, writer: W) -> io::Result<W> {
         self.output_all()?;
         self.header_written = false;
+        self.trailer_written = false;
         self.checksum = Adler32Checksum::new();
         self.deflate_state.reset(writer)
     }
@@ -237,15 +240,17 @@ impl<W: Write> ZlibEncoder<W> {
 
     /// Write the trailer, which for zlib is the Adler32 checksum.
     fn write_trailer(&mut self) -> io::Result<()> {
-        let hash = self.checksum.current_hash();
-
-        self.deflate_state
-            .inner
-            .as_mut()
-            .expect(ERR_STR)
-            .write_all(&hash.to_be_bytes())?;
+        // The trailer is added to the output buffer only once, so that it isn't repeated if writing
+        // it fails and has to be retried.
+        if !self.trailer_written {
+            let hash = self.checksum.current_hash();
+            self.deflate_state
+                .output_buf()
+                .extend_from_slice(&hash.to_be_bytes());
+            self.trailer_written = true;
+        }
 
-        Ok(())
+        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
     }
 
     /// Return the adler32 checksum of the currently consumed data.
@@ -295,7 +300,7 @@ impl<W: Write> Drop for ZlibEncoder<W> {
 #[cfg(feature = "gzip")]
 pub mod gzip {
 
-    use std::io::{Cursor, Write};
+    use std::io::Write;
     use std::{io, thread};
 
     use super::*;
@@ -335,6 +340,7 @@ pub mod gzip {
         inner: DeflateEncoder<W>,
         checksum: Crc,
         header: Vec<u8>,
+        trailer_written: bool,
     }
 
     impl<W: Write> GzEncoder<W> {
@@ -355,6 +361,7 @@ pub mod gzip {
                 inner: DeflateEncoder::new(writer, options),
                 checksum: Crc::new(),
                 header: builder.into_header(),
+                trailer_written: false,
             }
         }
 
@@ -389,6 +396,7 @@ pub mod gzip {
         fn reset_no_header(&mut self, writer: W) -> io::Result<W> {
             self.output_all()?;
             self.checksum = Crc::new();
+            self.trailer_written = false;
             self.inner.deflate_state.reset(writer)
         }
 
@@ -411,21 +419,18 @@ pub mod gzip {
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
         fn write_trailer(&mut self) -> io::Result<()> {
-            let crc = self.checksum.sum();
-            let amount = self.checksum.amt_as_u32();
-
-            // We use a buffer here to make sure we don't end up writing only half the header if
-            // writing fails.
-            let mut buf = [0u8; 8];
-            let mut temp = Cursor::new(&mut buf[..]);
-            temp.write_all(&crc.to_le_bytes()).unwrap();
-            temp.write_all(&amount.to_le_bytes()).unwrap();
-            self.inner
-                .deflate_state
-                .inner
-                .as_mut()
-                .expect(ERR_STR)
-                .write_all(temp.into_inner())
+            // The trailer is added to the output buffer only once, so that it isn't repeated if
+            // writing it fails and has to be retried.
+            if !self.trailer_written {
+                let crc = self.checksum.sum();
+                let amount = self.checksum.amt_as_u32();
+                let output = self.inner.deflate_state.output_buf();
+                output.extend_from_slice(&crc.to_le_bytes());
+                output.extend_from_slice(&amount.to_le_bytes());
+                self.trailer_written = true;
+            }
+
+            self.inner.output_all()
         }
 
         /// Get the crc32 checksum of the data consumed so far.
-- 
2.43.0


From c7d505300028612d3b550a65f803a437d41e53cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 08/18] fix: don't set up a new gzip header when resetting
 fails

---
 src/writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 27765c9..a06fddf 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -403,18 +403,18 @@ pub mod gzip {
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one. (Using a blank header).
         pub fn reset(&mut self, writer: W) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = GzBuilder::new().into_header();
-            w
+            Ok(w)
         }
 
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one, and using the provided `GzBuilder` to
         /// create the header.
         pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = builder.into_header();
-            w
+            Ok(w)
         }
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
-- 
2.43.0


From 7c39d72503b9a39fed6afa37b46978fb407acb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 09/18] fix: count the whole match when it fills the buffer at
 the end of the input

---
 src/lz77.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index e63d21d..f027d14 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -469,7 +469,7 @@ fn process_chunk_lazy(
                 if let BufferStatus::Full = b_status {
                     // TODO: These bytes should be hashed when doing a sync flush.
                     // This can't be done here as the new input data does not exist yet.
-                    return (overlap, buffer_full(end));
+                    return (overlap, buffer_full(position + prev_length as usize - 1));
                 } else {
                     return (overlap, ProcessStatus::Ok);
                 }
-- 
2.43.0


From 020b0e0b0e5553215744114bc4ce681890306bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 10/18] fix: output the right data if a stored block ends at
 the end of the window

---
 src/lz77.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index f027d14..22298d6 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -680,6 +680,8 @@ pub fn lz77_compress_block(
                 state.current_block_input_bytes +=
                     (written - start + pending_previous - state.pending_byte_as_num()) as u64;
 
+                current_position = written - state.pending_byte_as_num();
+
                 // If the buffer is full, return and end the block.
                 // If overlap is non-zero, the buffer was full after outputting the last byte,
                 // otherwise we have to skip to the point in the buffer where we stopped in the
@@ -692,6 +694,8 @@ pub fn lz77_compress_block(
                             state.hash_table.slide(window_size);
                         }
                         remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
+                        // The data of this block has moved as well.
+                        current_position -= window_size;
                     } else {
                         state.is_first_window = false;
                     }
@@ -700,8 +704,6 @@ pub fn lz77_compress_block(
                     written - window_start
                 };
 
-                current_position = written - state.pending_byte_as_num();
-
                 // Status is already EndBlock at this point.
                 // status = LZ77Status::EndBlock;
                 break;
-- 
2.43.0


From 0b041ac292a145bd481e5e41f6a499b2f77ff309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 11/18] fix: reset the whole hash table when resetting the
 encoder

---
 src/chained_hash_table.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 1eb5957..3fc81d8 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -106,11 +106,7 @@ impl ChainedHashTable {
     pub fn reset(&mut self) {
         self.current_hash = 0;
         reset_array(&mut self.c.head);
-        {
-            let h = self.c.head;
-            let mut c = self.c.prev;
-            c[..].copy_from_slice(&h[..]);
-        }
+        self.c.fill_prev();
         /*if cfg!(debug_assertions) {
             self.count.reset();
         }*/
-- 
2.43.0


From 79787bd45daff8389b398481270ffa4968048456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 12/18] fix: don't skip looking for a match after not finding
 one when not lazy matching

---
 src/lz77.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lz77.rs b/src/lz77.rs
index 22298d6..de84646 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -323,6 +323,9 @@ fn process_chunk_lazy(
 
     const NO_LENGTH: u16 = 0;
 
+    // Lower values would make us skip a byte even if we didn't find a match.
+    let lazy_if_less_than = cmp::max(lazy_if_less_than, MIN_MATCH);
+
     // The previous match length, if any.
     let mut prev_length = state.current_length;
     // The distance of the previous match if any.
-- 
2.43.0


From f6b33280455c002b8a5d38ca1386b54b8ccc72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 13/18] fix: count the right number of extra bits when deciding
 on the block type

---
 src/huffman_lengths.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index a5a153a..c08984a 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -49,7 +49,8 @@ pub fn remove_trailing_zeroes<T: From<u8> + PartialEq>(input: &[T], min_length:
 /// How many extra bits the Huffman length code uses to represent a value.
 fn extra_bits_for_huffman_length_code(code: u8) -> u8 {
     match code {
-        16..=17 => 3,
+        16 => 2,
+        17 => 3,
         18 => 7,
         _ => 0,
     }
-- 
2.43.0


From f5d9e3f409f732ab7b8ed2a68b8fe87219b7fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 14/18] fix: use the length of the fixed distance codes when
 deciding on the block type

---
 src/huffman_lengths.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index c08984a..16048ec 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -2,8 +2,8 @@ use crate::bitstream::LsbWriter;
 use crate::deflate_state::LengthBuffers;
 use crate::huffman_table::{
     create_codes_in_place, num_extra_bits_for_distance_code, num_extra_bits_for_length_code,
-    HuffmanTable, FIXED_CODE_LENGTHS, LENGTH_BITS_START, MAX_CODE_LENGTH, NUM_DISTANCE_CODES,
-    NUM_LITERALS_AND_LENGTHS,
+    HuffmanTable, FIXED_CODE_LENGTHS, FIXED_CODE_LENGTHS_DISTANCE, LENGTH_BITS_START,
+    MAX_CODE_LENGTH, NUM_DISTANCE_CODES, NUM_LITERALS_AND_LENGTHS,
 };
 use crate::length_encode::{
     encode_lengths_m, huffman_lengths_from_frequency_m, EncodedLength, COPY_PREVIOUS,
@@ -72,11 +72,12 @@ fn calculate_huffman_length(frequencies: &[FrequencyType], code_lengths: &[u8])
 /// code lengths (first return value) and static code lengths (second return value).
 ///
 /// Parameters:
-/// Frequencies, length of dynamic codes, and a function to get how many extra bits in addition
-/// to the length of the Huffman code the symbol will use.
+/// Frequencies, length of dynamic codes, length of static codes, and a function to get how many
+/// extra bits in addition to the length of the Huffman code the symbol will use.
 fn calculate_block_length<F>(
     frequencies: &[FrequencyType],
     dyn_code_lengths: &[u8],
+    fixed_code_lengths: &[u8],
     get_num_extra_bits: &F,
 ) -> (u64, u64)
 where
@@ -89,7 +90,7 @@ where
 
     let iter = frequencies
         .iter()
-        .zip(dyn_code_lengths.iter().zip(FIXED_CODE_LENGTHS.iter()))
+        .zip(dyn_code_lengths.iter().zip(fixed_code_lengths.iter()))
         .enumerate();
 
     // This could maybe be optimised a bit by splitting the iteration of codes using extra bits and
@@ -242,14 +243,17 @@ pub fn gen_huffman_lengths(
     // (excluding the 3-bit block header since it's used in all block types).
 
     // Total length of the compressed literals/lengths.
-    let (d_ll_length, s_ll_length) = calculate_block_length(l_freqs, l_lengths, &|c| {
-        num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8).into()
-    });
+    let (d_ll_length, s_ll_length) =
+        calculate_block_length(l_freqs, l_lengths, &FIXED_CODE_LENGTHS, &|c| {
+            num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8)
+                .into()
+        });
 
     // Total length of the compressed distances.
-    let (d_dist_length, s_dist_length) = calculate_block_length(d_freqs, d_lengths, &|c| {
-        num_extra_bits_for_distance_code(c as u8).into()
-    });
+    let (d_dist_length, s_dist_length) =
+        calculate_block_length(d_freqs, d_lengths, &FIXED_CODE_LENGTHS_DISTANCE, &|c| {
+            num_extra_bits_for_distance_code(c as u8).into()
+        });
 
     // Total length of the compressed huffman code lengths.
     let huff_table_length = calculate_huffman_length(&freqs, &huffman_table_lengths);
-- 
2.43.0


From 3426083b379f5196f612cdaa10dd365718338c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 15/18] fix: don't mix up the hash when starting a new block in
 the first window

---
 src/lz77.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lz77.rs b/src/lz77.rs
index de84646..d5a456a 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -639,6 +639,7 @@ pub fn lz77_compress_block(
             if state.is_first_window {
                 if buffer.get_buffer().len() >= 2
                     && add_initial
+                    && state.overlap == 0
                     && state.current_block_input_bytes == 0
                 {
                     let b = buffer.get_buffer();
-- 
2.43.0


From 62c90491dfd5f66532c8ea6a4aa07e6500c4f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 16/18] fix: keep a pending match if the buffer is full at the
 end of the window

---
 src/lz77.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lz77.rs b/src/lz77.rs
index d5a456a..62e989a 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -321,6 +321,12 @@ fn process_chunk_lazy(
 ) -> (usize, ProcessStatus) {
     let (end, mut insert_it, mut hash_it) = create_iterators(data, iterated_data);
 
+    if iterated_data.start >= end {
+        // The buffer was full at the end of the window, so keep the pending match, if any, for the
+        // next window.
+        return (0, ProcessStatus::Ok);
+    }
+
     const NO_LENGTH: u16 = 0;
 
     // Lower values would make us skip a byte even if we didn't find a match.
-- 
2.43.0


From 23742e0e318aafd16e548a0e4fd1f98be0e1e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 17/18] fix: hash the bytes before a sync flush however the
 following data is written

The last two bytes before a sync flush were only added to the hash table
from the first slice of data passed in after it, so matches were missed
(and the output depended on how the data was split) if that had less than
two bytes, or if less than three bytes had been compressed before the
flush.
---
 src/lz77.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 62e989a..8648716 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -618,18 +618,6 @@ pub fn lz77_compress_block(
     // Whether warm up the hash chain with the two first values.
     let mut add_initial = true;
 
-    // If we have synced, add the two first bytes to the hash as they couldn't be added before.
-    if state.was_synced {
-        if buffer.current_end() > 2 {
-            let pos_add = buffer.current_end() - 2;
-            for (n, &b) in data.iter().take(2).enumerate() {
-                state.hash_table.add_hash_value(n + pos_add, b);
-            }
-            add_initial = false;
-        }
-        state.was_synced = false;
-    }
-
     // Add data to the input buffer and keep a reference to the slice of data not added yet.
     let mut remaining_data = buffer.add_data(data);
 
@@ -671,6 +659,22 @@ pub fn lz77_compress_block(
                 window_size
             };
             let start = state.overlap + window_start;
+
+            // If we have synced, the last two bytes before the sync couldn't be added to the hash
+            // table, as that requires the bytes following them, so add them now.
+            if state.was_synced {
+                let b = buffer.get_buffer();
+                if start == 1 && b.len() >= 2 {
+                    // There were too few bytes to warm up the hash before the sync.
+                    state.hash_table.add_initial_hash_values(b[0], b[1]);
+                }
+                let pos_add = start.saturating_sub(2);
+                for (n, &h) in b[pos_add..].iter().skip(2).take(start - pos_add).enumerate() {
+                    state.hash_table.add_hash_value(pos_add + n, h);
+                }
+                state.was_synced = false;
+            }
+
             let end = cmp::min(window_size + window_start, buffer.current_end());
 
             let (overlap, p_status) = process_chunk(
-- 
2.43.0


From d0f18cff29a61895013211016129f8931b8e95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 18/18] fix: truncate max_hash_checks to 2^15 as documented

---
 src/deflate_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deflate_state.rs b/src/deflate_state.rs
index dfa8221..738a738 100644
--- a/src/deflate_state.rs
+++ b/src/deflate_state.rs
@@ -101,7 +101,7 @@ impl<W: Write> DeflateState<W> {
         DeflateState {
             input_buffer: InputBuffer::empty(),
             lz77_state: LZ77State::new(
-                compression_options.max_hash_checks,
+                cmp::min(compression_options.max_hash_checks, MAX_HASH_CHECKS),
                 cmp::min(compression_options.lazy_if_less_than, MAX_HASH_CHECKS),
                 compression_options.matching_type,
             ),
-- 
2.43.0

