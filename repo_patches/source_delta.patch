From 6d8b447ed55d7e3ba283f9dfc6b4ff404a115a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 01/10] fix: report truncated HPACK integers as underflow
 instead of panicking

---
 hpack/src/decoder/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 77d4cbd..578dd7e 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -67,7 +67,7 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 
     let mut shift = 0;
     loop {
-        let byte = if buf.is_empty() {
+        let byte = if total >= buf.len() {
             return Err(DecoderError::IntegerUnderflow);
         } else {
             total += 1;
-- 
2.43.0


From 272186f32528a0f1c45114b81af64be358a28baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 02/10] fix: report a missing HPACK string as underflow instead
 of panicking

---
 hpack/src/decoder/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 578dd7e..b297211 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -105,11 +105,11 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 /// 
 /// [5.2.]: https://tools.ietf.org/html/rfc7541#section-5.2
 pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> Result<usize, DecoderError> {
-    let huffman = buf[0] & 128 == 128;
-
     let mut len = 0;
     let mut total = decode_integer(buf, &mut len, 7)?;
 
+    let huffman = buf[0] & 128 == 128;
+
     if len as usize > buf.len() - total {
         return Err(DecoderError::IntegerUnderflow);
     }
-- 
2.43.0


From 41f9713e848d01ddaec5ae8a9dc26ea3e653ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 03/10] fix: reject Huffman padding that is not fewer than 8
 one bits

---
 huffman/src/decoder/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huffman/src/decoder/reader.rs b/huffman/src/decoder/reader.rs
index 2743d07..be93bb3 100644
--- a/huffman/src/decoder/reader.rs
+++ b/huffman/src/decoder/reader.rs
@@ -87,7 +87,7 @@ impl DecodeReader {
         self.buf = 0;
         self.buf_size = 0;
 
-        if !vec![0, 1, 3, 7, 15, 31, 63, 127].iter().any(|p| *p == self.tail) { // validate padding
+        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 { // validate padding
             return Err(DecoderError::InvalidInput);
         }
 
-- 
2.43.0


From ef845afe109535c6606db5516aec219b4a98fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 04/10] fix: return the hard limit from the HPACK decoder's
 max_dynamic_size

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 8f4f2b2..5e22e9a 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     /// Note that the dynamic table could actually be of different size. This
     /// size is just a hard limit set by the external protocol.
     pub fn max_dynamic_size(&self) -> u32 {
-        self.table.max_dynamic_size()
+        self.max_dynamic_size
     }
 
     /// Sets the maximum allowed size of the dynamic table.
-- 
2.43.0


From f2f198df7ed9e6035bd0b2fb7584158c51b73de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 05/10] fix: reject protobuf varints longer than 10 bytes

---
 protos/src/decoder/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 47ca7d8..a657508 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -40,6 +40,8 @@ pub fn decode_varint(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError> {
         if byte <= 0x7F {
             *dst = value;
             return Ok(count);
+        } else if count == 10 { // the longest 64-bit varint
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
@@ -627,6 +629,8 @@ pub fn extract_varint(
         if byte <= 0x7F {
             dst.append(&mut bytes);
             return Ok(count);
+        } else if count == 10 { // the longest 64-bit varint
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
-- 
2.43.0


From 2eac7f8264da59d6b2f2a492107b211b9b063905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 06/10] fix: continue decoding after an empty length-delimited
 protobuf field

---
 protos/src/decoder/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protos/src/decoder/mod.rs b/protos/src/decoder/mod.rs
index e84cdab..2ed6253 100644
--- a/protos/src/decoder/mod.rs
+++ b/protos/src/decoder/mod.rs
@@ -75,6 +75,7 @@ impl Decoder {
     ) -> Result<usize, DecoderError> {
         let mut total = 0;
         loop {
+            let count = dst.len();
             let mut _size = 0;
             match self.key.1 {
                 Typ::Unknown => {
@@ -93,7 +94,7 @@ impl Decoder {
                     _size = self.extract_ld(buf, dst)?;
                 },
             }
-            if _size == 0 {
+            if _size == 0 && dst.len() == count { // empty values have no bytes
                 break;
             }
             total += _size;
-- 
2.43.0


From 709a32cee4e024360982852df110c8e2a7df6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 07/10] fix: count the octets of HPACK size updates as decoded

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 5e22e9a..6657d64 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -155,7 +155,7 @@ impl<'a> Decoder<'a> {
             } else if octet & 64 == 64 { // with indexing
                 total += self.decode_literal(buf, dst)?;
             } else if octet & 32 == 32 {
-                self.update_max_dynamic_size(buf)?;
+                total += self.update_max_dynamic_size(buf)?;
             } else if octet & 16 == 16 { // never indexed
                 total += self.decode_literal(buf, dst)?;
             } else { // without indexing
-- 
2.43.0


From d825fd3bb0eca426515c10333e66dc499ae33619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 08/10] fix: keep never indexed headers never indexed in the
 best format

---
 hpack/src/encoder/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index 83f48e7..5971c7c 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -156,6 +156,9 @@ impl<'a> Encoder<'a> {
             EncoderInput::Literal(name, value, flags) => {
                 if flags & 0x10 == 0x10 {
                     match self.table.find(&name, &value) {
+                        Some((index, true)) if flags & 0xC == 0x8 => { // stays never indexed
+                            self.encode_indexed_name(index as u32, value, flags, dst)
+                        },
                         Some((index, true)) => {
                             self.encode_indexed(index as u32, dst)
                         },
-- 
2.43.0


From 4155dbff1e3236ece1c471a8078b79dcfea9a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 09/10] fix: refuse to encode HPACK integers longer than 5
 octets

---
 hpack/src/encoder/mod.rs        | 30 ++++++++++++++++++++++++------
 hpack/src/encoder/primitives.rs |  3 +++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index 5971c7c..eb2b848 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -274,8 +274,8 @@ impl<'a> Encoder<'a> {
             return Err(EncoderError::InvalidIndex);
         };
 
+        let start = dst.len();
         if flags & 0x4 == 0x4 {
-            self.table.insert(name, value.clone());
             encode_integer(index, 0x40, 6, dst)?;
         } else if flags & 0x8 == 0x8 {
             encode_integer(index, 0b00010000, 4, dst)?;
@@ -283,7 +283,15 @@ impl<'a> Encoder<'a> {
             encode_integer(index, 0x0, 4, dst)?;
         }
 
-        encode_string(value, flags & 0x2 == 0x2, dst)
+        if let Err(err) = encode_string(value.clone(), flags & 0x2 == 0x2, dst) {
+            dst.truncate(start);
+            return Err(err);
+        }
+
+        if flags & 0x4 == 0x4 {
+            self.table.insert(name, value);
+        }
+        Ok(())
     }
 
     /// Encodes a header where its name and value are provided in bytes.
@@ -362,17 +370,26 @@ impl<'a> Encoder<'a> {
         dst: &mut Vec<u8>,
     ) -> Result<(), EncoderError> {
 
+        let start = dst.len();
         if flags & 0x4 == 0x4 {
             dst.push(0x40);
-            self.table.insert(name.clone(), value.clone());
         } else if flags & 0x8 == 0x8 {
             dst.push(0b00010000);
         } else { // without indexing
             dst.push(0x0);
         }
 
-        encode_string(name, flags & 0x1 == 0x1, dst)?;
-        encode_string(value, flags & 0x2 == 0x2, dst)
+        let res = encode_string(name.clone(), flags & 0x1 == 0x1, dst)
+            .and_then(|_| encode_string(value.clone(), flags & 0x2 == 0x2, dst));
+        if let Err(err) = res {
+            dst.truncate(start);
+            return Err(err);
+        }
+
+        if flags & 0x4 == 0x4 {
+            self.table.insert(name, value);
+        }
+        Ok(())
     }
 
     /// Updates the maximum size of the dynamic table and encodes the new size
@@ -398,8 +415,9 @@ impl<'a> Encoder<'a> {
         size: u32,
         dst: &mut Vec<u8>,
     ) -> Result<(), EncoderError> {
+        encode_integer(size, 0b00100000, 5, dst)?;
         self.table.update_max_dynamic_size(size);
-        encode_integer(size, 0b00100000, 5, dst)
+        Ok(())
     }
 }
 
diff --git a/hpack/src/encoder/primitives.rs b/hpack/src/encoder/primitives.rs
index 2f13567..bf53771 100644
--- a/hpack/src/encoder/primitives.rs
+++ b/hpack/src/encoder/primitives.rs
@@ -60,6 +60,9 @@ pub(crate) fn encode_integer(
     }
 
     let mut value = value - mask as u32;
+    if value >= 1 << 28 { // does not fit into 5 bytes
+        return Err(EncoderError::IntegerOverflow);
+    }
     dst.push(flags | mask as u8); // first byte
     while value >= 128 {
         dst.push(0b10000000 | value as u8); // byte with continuation flag
-- 
2.43.0


From 879999563dbd1abf0b2b25176028aca477d4f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 10/10] fix: flatten Huffman codes of 31 and 32 bits without
 losing their leading bits

---
 huffman/src/flattener/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huffman/src/flattener/mod.rs b/huffman/src/flattener/mod.rs
index d14b1d8..e425a47 100644
--- a/huffman/src/flattener/mod.rs
+++ b/huffman/src/flattener/mod.rs
@@ -207,11 +207,11 @@ fn generate_blank_transition(speed: usize) -> Vec<(Option<u8>, Option<u16>, u8)>
 ///             [1100, 0000, 1110, 0111]
 /// ```
 fn generate_coding_paths(coding: &(u8, u32), speed: usize) -> Vec<Vec<usize>> {
-    let mut bits: u32 = 0; // HPACK value can be up to 32 bits
+    let mut bits: u64 = 0; // HPACK value can be up to 32 bits (plus leftover)
     let chunks_len = (coding.0 as f32 / speed as f32).ceil() as usize;
     let chunk_max = 2u32.pow(speed as u32) as usize - 1;
     let leftover = chunks_len * speed - coding.0 as usize;
-    bits |= coding.1;
+    bits |= coding.1 as u64;
     bits <<= leftover;
 
     let mut chunks = vec![];
-- 
2.43.0

