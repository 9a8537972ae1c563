From 58b25900b68fa008f7510d24a25cee60007da7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 01/43] fix: reject VBRs that don't fit in 64 bits

read_vbr shifted by an unbounded amount, so a VBR with too many continuation
blocks panicked (or produced garbage with overflow checks off).
---
 llvm-bitcursor/src/error.rs |  4 ++++
 llvm-bitcursor/src/lib.rs   | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/error.rs b/llvm-bitcursor/src/error.rs
index 905a66c..3b974a4 100644
--- a/llvm-bitcursor/src/error.rs
+++ b/llvm-bitcursor/src/error.rs
@@ -25,6 +25,10 @@ pub enum Error {
     #[cfg(any(feature = "vbr", doc))]
     #[error("invalid VBR width (must be > 1 but <= system word width)")]
     InvalidVbrWidth,
+    /// A VBR read API encountered a VBR whose encoding doesn't fit in 64 bits.
+    #[cfg(any(feature = "vbr", doc))]
+    #[error("VBR encoding is too large to represent in 64 bits")]
+    VbrOverflow,
     /// An I/O operation completed partially, but the inner buffer ended before it full completion.
     #[error("too little data to service request")]
     Short,
diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..375c30e 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -298,7 +298,15 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             // Read a block, add it to the result (with the potential continuation bit masked off)
             let block = self.read(width)?;
             log::debug!("block: {:#b}, masked: {:#b}", block, block & !block_mask);
-            result |= (block & !block_mask) << shift;
+            let payload = block & !block_mask;
+
+            // A VBR can have arbitrarily many continuation blocks, but we can only represent
+            // 64 bits of payload: anything past that is an error, rather than an invalid shift
+            // or a silently truncated result.
+            if shift >= Self::BLOCK_SIZE_BITS || (payload << shift) >> shift != payload {
+                return Err(Error::VbrOverflow);
+            }
+            result |= payload << shift;
 
             // If we don't have a continuation bit, then we're done with the VBR.
             let continuation = (block & block_mask) != 0;
-- 
2.43.0


From 24ee4200e2e71ca4093c43198ca5ba0073910cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 02/43] fix: align32 relative to the stream, not to the loaded
 block

align32 assumed that the current block starts on a 32-bit boundary and ends on
one; after a byte seek, or in a final partial block, it left the cursor
misaligned.
---
 llvm-bitcursor/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 375c30e..a1ac074 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -346,11 +346,16 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
-        } else {
-            self.clear_block_state();
+        // Blocks don't necessarily begin on a 32-bit boundary or span a whole number of
+        // 32-bit words (e.g. after a seek, or at the end of the data), so the padding has
+        // to be computed from our position rather than from the block state.
+        let pos = self.tell_bit();
+        let padding = (32 - (pos % 32)) % 32;
+        let padding = padding.min(self.bit_len().saturating_sub(pos));
+
+        if padding > 0 {
+            // Infallible: we've limited ourselves to the bits that remain.
+            let _ = self.read(padding);
         }
     }
 }
-- 
2.43.0


From 45edd4c0c0153de5cbc34b099b50f8228b5c2ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 03/43] fix: don't overflow on extreme relative seeks, and
 allow seeking to the end

SeekFrom::Current(i64::MAX) overflowed (a panic with overflow checks), and
SeekFrom::End(0) was rejected even though the exact end is a valid position.
---
 llvm-bitcursor/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index a1ac074..a89d76b 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -376,17 +376,17 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
         let off = match pos {
             io::SeekFrom::Start(pos) => pos,
             io::SeekFrom::End(pos) => {
-                if pos >= 0 {
+                if pos > 0 {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
                         "cannot seek past end",
                     ));
                 }
 
-                // Seeking backwards from the end is perfectly fine.
+                // Seeking to the end, or backwards from the end, is perfectly fine.
                 ((self.byte_len() as i64) + pos) as u64
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
+            io::SeekFrom::Current(pos) => (self.tell_byte() as i64).wrapping_add(pos) as u64,
         } as usize;
 
         // Sanity check: we can't seek before or beyond the backing buffer.
-- 
2.43.0


From bb79066d0bf376e49b312aa4116bcc6df3f89238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 04/43] fix: decode the minimum signed VBR

LLVM encodes INT64_MIN as a signed VBR of 1 ('negative zero'); read_svbr
returned 0 for it.
---
 llvm-bitcursor/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index a89d76b..7e30aa5 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -333,7 +333,10 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
         let sgn = (result & 1) != 0;
         result >>= 1;
 
-        if sgn {
+        if sgn && result == 0 {
+            // There's no negative zero: LLVM uses this encoding for the minimum value.
+            Ok(isize::MIN)
+        } else if sgn {
             Ok(-(result as isize))
         } else {
             Ok(result as isize)
-- 
2.43.0


From 1c0715747058bc4028e1c969ecbfc3116abd8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 05/43] fix: don't underflow on an array operand without an
 element

An abbreviation whose only operand is an array underflowed while checking the
array's index (a panic with overflow checks).
---
 llvm-bitstream/src/abbrev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..5560003 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -174,7 +174,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if idx + 2 != num_abbrev_opnds {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
-- 
2.43.0


From 58c8d1317d4f6b3810d1d10a1c52f9ba415736f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 06/43] fix: reject literal array elements in abbreviations

The literal bit of an array's element operand was skipped, so a literal element
was misread as an encoding and the rest of the stream with it. Like LLVM, only
accept encodings as element types.
---
 llvm-bitstream/src/abbrev.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 5560003..03ac020 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -183,7 +183,11 @@ impl Abbrev {
                     // `done_early` to indicate that we're done with operand parsing.
                     // This works since array operands are guaranteed to be second-to-last,
                     // followed only by their element operand encoding.
-                    cur.read(1)?;
+                    if cur.read(1)? == 1 {
+                        return Err(Error::AbbrevParse(
+                            "invalid element type for an array: literal".into(),
+                        ));
+                    }
                     let elem_enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
                     done_early = true;
 
-- 
2.43.0


From ac4e1d301ff549ed14033e280dce8b0f5cf668ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 07/43] fix: don't panic on an abbreviated record without a
 code

An abbreviation that begins with an array or blob produces no fields at all when
that array or blob is empty, and removing the record code panicked.
---
 llvm-bitstream/src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..7bca462 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -361,8 +361,15 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
-        // We also expect the first operand to always be a u64, indicating the record code.
+        // Every abbrev contains at least one operand, but that operand might be an empty
+        // array or blob. We expect the first field to always be present, since it
+        // indicates the record code.
+        if fields.is_empty() {
+            return Err(Error::StreamParse(format!(
+                "record with abbreviation ID {} has no record code",
+                abbrev_id
+            )));
+        }
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From 1d886db8f84d07754bb495fa41e74780db133c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 08/43] fix: don't panic on a SETBID record without a block ID

---
 llvm-bitstream/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 7bca462..b7a267f 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -332,7 +332,9 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record.fields.first().ok_or_else(|| {
+                        Error::StreamParse("SETBID in BLOCKINFO without a block ID".into())
+                    })?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From 39d44b9ab39ce19196b549ccf67803432d5cf99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 09/43] fix: don't allocate based on untrusted lengths while
 parsing records

A handful of bytes could request an arbitrarily large allocation through the
length of an array, a blob, or an unabbreviated record, which panics or aborts.
---
 llvm-bitstream/src/abbrev.rs | 7 ++++---
 llvm-bitstream/src/parser.rs | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 03ac020..8ac80e7 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -75,10 +75,10 @@ impl AbbrevOp {
             AbbrevOp::Array(elem) => {
                 // An array operand is encoded as a length (VBR6), followed by
                 // each encoded element of the array.
-                // TODO(ww): Sanity check array_len here.
+                // NOTE: array_len is untrusted, so we don't reserve any space based on it.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                let mut fields: Fields = Vec::new();
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -92,13 +92,14 @@ impl AbbrevOp {
 
                 // TODO(ww): Sanity check blob_len here: it probably shouldn't be 0,
                 // and it definitely can't be longer than the stream.
+                // NOTE: blob_len is untrusted, so we don't reserve any space based on it.
                 let blob_len = cur.read_vbr(6)? as usize;
                 cur.align32();
 
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                let mut fields: Fields = Vec::new();
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index b7a267f..b7de972 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        // NOTE: num_opnds is untrusted, so we don't reserve any space based on it.
+        let mut fields: Fields = Vec::new();
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From f92f184abd2402948cfa42c5f932067ff902011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 10/43] fix: don't recurse for every entry that isn't surfaced

advance() called itself for each DEFINE_ABBREV and BLOCKINFO entry, so a stream
with enough of them in a row overflowed the stack.
---
 llvm-bitstream/src/parser.rs | 38 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index b7de972..f8e971e 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -392,6 +392,19 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
+        // NOTE: Parse details (such as abbrev definitions and the BLOCKINFO block) don't
+        // produce an entry, so we go on until something does. This is a loop rather than a
+        // recursive call, since a stream can contain arbitrarily many of them in a row.
+        loop {
+            if let Some(entry) = self.advance_one()? {
+                return Ok(entry);
+            }
+        }
+    }
+
+    /// Parse the next thing in this bitstream, returning its [`StreamEntry`](StreamEntry) or
+    /// `None` if it's a parse detail that shouldn't be surfaced.
+    fn advance_one(&mut self) -> Result<Option<StreamEntry>, Error> {
         if self.cursor.exhausted() {
             return Err(Error::Exhausted);
         }
@@ -411,32 +424,17 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             .into();
         log::debug!("next entry ID: {:?}", id);
 
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
-        // generalized without having to return `StreamEntries` that correspond to
-        // parse details that a stream consumer shouldn't have to be aware of
-        // (such as abbrev definitions and the BLOCKINFO block).
         match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
-            }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block(),
+            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block(),
             AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
                 // DEFINE_ABBREV is always a parse detail, so we don't even bother
                 // trying to return a StreamEntry for it.
                 self.define_abbrev()?;
-                self.advance()
+                Ok(None)
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev(),
+            AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id),
         }
     }
 }
-- 
2.43.0


From 39c725f781a0e0be66df82bf1f123dcd55d1bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 11/43] fix: use the wrapper's offset to find the end of the
 wrapped bitstream

The end was computed as if the bitstream always began right after the 20 byte
header, so any other offset truncated the stream.
---
 llvm-bitstream/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..7ca00e0 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -120,10 +120,12 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
+        // The manual fixup (+ offset) is another artifact of this -- we keep the wrapper header
         // in the new cursor to make the offsets more intelligible, which means that we
         // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        let actual_length = (wrapper.offset as usize)
+            .checked_add(wrapper.size as usize)
+            .ok_or_else(|| Error::BadContainer("bitcode wrapper is too large".into()))?;
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From 7b53fbbe6538df4694517603dad6065124e5e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 12/43] fix: don't underflow when extracting a string or blob
 from an empty record

---
 llvm-mapper/src/unroll.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..9671753 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -34,7 +34,7 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
@@ -54,7 +54,7 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
-- 
2.43.0


From e7dca393bdd12222da1d55e8fa0b36f08df4b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 13/43] fix: don't overflow on out-of-range string table
 references

---
 llvm-mapper/src/block/strtab.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..a542760 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,13 +79,16 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        let end = sref
+            .offset
+            .checked_add(sref.size)
+            .ok_or(StrtabError::BadRange)?;
+
+        if sref.size == 0 || sref.offset >= inner.len() || end > inner.len() {
             return Err(StrtabError::BadRange);
         }
 
-        Ok(std::str::from_utf8(
-            &inner[sref.offset..sref.offset + sref.size],
-        )?)
+        Ok(std::str::from_utf8(&inner[sref.offset..end])?)
     }
 
     /// Attempts to read a record's name from the string table.
-- 
2.43.0


From 7616e0cc1f0003f231a16a462ff3af3f85a28d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 14/43] fix: don't panic on a string attribute with an
 unterminated key

---
 llvm-mapper/src/block/attributes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..07668db 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -393,7 +393,11 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                // NOTE: An unterminated string may have taken us past the end of the record.
+                let str_bytes = record
+                    .fields()
+                    .get(start + fieldcount..)
+                    .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
-- 
2.43.0


From 8c4a253c1bd95329a9c3f90ccf19946c75a623b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 15/43] fix: decode vscale_range's minimum and maximum

The two were swapped, and an unbounded maximum (0) was turned into the minimum.
---
 llvm-mapper/src/block/attributes.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 07668db..17e032a 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -335,13 +335,12 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                 IntAttribute::AllocSize(elt_size, num_elts)
             }
             AttributeId::VScaleRange => {
+                // NOTE: A maximum of 0 means that the range is unbounded. LLVM makes an
+                // omitted maximum (which means the same as the minimum) explicit.
                 let min = (value >> 32) as u32;
-                let max = match value as u32 {
-                    0 => min,
-                    max => max,
-                };
+                let max = value as u32;
 
-                IntAttribute::VScaleRange(max, min)
+                IntAttribute::VScaleRange(min, max)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From b35e80e7b6153c4186a7a64c2a85e33f8534a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 16/43] fix: decode align and alignstack attributes as byte
 alignments

LLVM writes the alignment of these attributes in bytes ('align 16' is 16), not
as the log2 plus one that it uses for the alignment in function records.
---
 llvm-mapper/src/block/attributes.rs | 45 ++++++++++++-----------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 17e032a..5abb8bf 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -4,7 +4,7 @@ use std::convert::{TryFrom, TryInto};
 
 use hashbrown::HashMap;
 use llvm_support::bitcodes::AttributeCode;
-use llvm_support::{AttributeId, AttributeKind, MaybeAlign};
+use llvm_support::{Align, AttributeId, AttributeKind, MaybeAlign};
 use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
@@ -270,6 +270,21 @@ pub enum IntAttribute {
     MemoryKind(u64),
 }
 
+/// Convert the value of an alignment attribute into a `MaybeAlign`.
+///
+/// NOTE: Unlike the alignments in records (which are encoded as their log2 plus one), alignment
+/// attributes carry their alignment in bytes.
+fn byte_alignment(key: AttributeId, value: u64) -> Result<MaybeAlign, AttributeError> {
+    let encoded = match value {
+        0 => Ok(0),
+        _ => Align::from_byte_align(value).map(|align| align.shift() + 1),
+    };
+
+    encoded
+        .and_then(MaybeAlign::try_from)
+        .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))
+}
+
 impl TryFrom<(AttributeId, u64)> for IntAttribute {
     type Error = AttributeError;
 
@@ -285,33 +300,9 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
         }
 
         Ok(match key {
-            AttributeId::Alignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::Alignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
+            AttributeId::Alignment => IntAttribute::Alignment(byte_alignment(key, value)?),
             AttributeId::StackAlignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::StackAlignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
+                IntAttribute::StackAlignment(byte_alignment(key, value)?)
             }
             AttributeId::Dereferenceable => IntAttribute::Dereferenceable(value),
             AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),
-- 
2.43.0


From 2cb1989719374a8e0d6dfc20b73c42b9dbcb7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 17/43] fix: map the nosanitize_bounds attribute

The attribute's ID is known, but it was missing from the enum attributes, so any
module that uses it failed to map.
---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 5abb8bf..768cf8d 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -212,6 +212,8 @@ pub enum EnumAttribute {
     ElementType = AttributeId::ElementType as u64,
     /// `disable_sanitizer_instrumentation`
     DisableSanitizerInstrumentation = AttributeId::DisableSanitizerInstrumentation as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
     /// ``allocalign`
     AllocAlign = AttributeId::AllocAlign as u64,
     /// `allocptr`
-- 
2.43.0


From ef577b149273d3b9b1d8de6c3567a6d6b1e8338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 18/43] fix: return an error instead of panicking on old
 attribute entries

---
 llvm-mapper/src/block/attributes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 768cf8d..6a8151f 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -471,7 +471,11 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    // TODO: These only show up in older bitcode.
+                    return Err(MapError::Unsupported(
+                        "unsupported: old attribute entry codes; please implement!".into(),
+                    )
+                    .into());
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
-- 
2.43.0


From 823c30c15241d7377940264f87bb5ee2d19f7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 19/43] fix: never merge a struct type with the type table
 entry before it

A named or opaque struct that directly followed another struct was either merged
into it or rejected, so e.g. any module with two named structs in a row failed
to map.
---
 llvm-mapper/src/block/type_table.rs | 57 +++++++----------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..74e17bc 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -236,10 +236,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -344,25 +340,13 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .into());
                     }
 
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
+                    // NOTE: Every record here is an entry of its own, even if it has been
+                    // referenced already: references are symbolic, and get resolved later.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
 
                     last_type_name.clear();
                 }
@@ -456,27 +440,12 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
+                    // Like with opaque types, this is always an entry of its own.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types,
+                        is_packed,
+                    }));
 
                     last_type_name.clear();
                 }
-- 
2.43.0


From d6bb418d3092718b34f9e68578ee382b28047136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 20/43] fix: don't truncate the width of integer types

A width of e.g. 2**32 + 8 was accepted as i8.
---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 74e17bc..8018dfe 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -351,7 +351,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                     last_type_name.clear();
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width =
+                        u32::try_from(type_field!(0)).map_err(|_| IntegerTypeError::BadWidth)?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
-- 
2.43.0


From 5a35f169ac807f9d6772c9b642e703f7cfb41b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 21/43] fix: don't allocate based on the untrusted type count

---
 llvm-mapper/src/block/type_table.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 8018dfe..d824450 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -226,9 +226,10 @@ struct PartialTypeTable {
 
 impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
+        // NOTE: numentries is untrusted, so we don't reserve any space based on it.
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            inner: Vec::new(),
         }
     }
 
@@ -287,7 +288,7 @@ impl TryFrom<&'_ Block> for TypeTable {
     type Error = TypeTableError;
 
     fn try_from(block: &Block) -> Result<Self, Self::Error> {
-        // Figure out how many type entries we have, and reserve the space for them up-front.
+        // Figure out how many type entries we expect to have.
         let numentries = *block
             .records
             .one(TypeCode::NumEntry)
-- 
2.43.0


From 62c2db756f72e5bff70486d3bf90acbd22e89b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 22/43] fix: don't overflow the stack while resolving recursive
 types

A type that contains itself (which typed pointers allow) was resolved forever.
---
 llvm-mapper/src/block/type_table.rs | 37 ++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index d824450..75656b7 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -108,7 +108,19 @@ enum PartialType {
 impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
-    fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+    ///
+    /// `depth` is the nesting depth of this type within the type that's being resolved.
+    fn resolve(&self, partials: &PartialTypeTable, depth: usize) -> Result<Type, TypeTableError> {
+        // Types are fully owned once resolved, so we can't represent a type that (indirectly)
+        // contains itself. This also bounds our recursion for types that don't.
+        if depth > PartialTypeTable::MAX_TYPE_DEPTH {
+            return Err(MapError::Unsupported(
+                "unsupported: recursive or too deeply nested type".into(),
+            )
+            .into());
+        }
+        let depth = depth + 1;
+
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -125,17 +137,17 @@ impl PartialType {
             PartialType::Token => Ok(Type::Token),
             PartialType::Integer(ity) => Ok(Type::new_integer(ity.bit_width)?),
             PartialType::Function(fty) => {
-                let return_type = partials.resolve(&fty.return_type)?;
+                let return_type = partials.resolve(&fty.return_type, depth)?;
                 let param_types = fty
                     .param_types
                     .iter()
-                    .map(|ty_ref| partials.resolve(ty_ref))
+                    .map(|ty_ref| partials.resolve(ty_ref, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_function(return_type, param_types, fty.is_vararg)?)
             }
             PartialType::Pointer(pty) => {
-                let pointee = partials.resolve(&pty.pointee)?;
+                let pointee = partials.resolve(&pty.pointee, depth)?;
 
                 Ok(Type::new_pointer(pointee, pty.address_space)?)
             }
@@ -144,7 +156,7 @@ impl PartialType {
                 let field_types = sty
                     .field_types
                     .iter()
-                    .map(|fty| partials.resolve(fty))
+                    .map(|fty| partials.resolve(fty, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_struct(
@@ -154,20 +166,20 @@ impl PartialType {
                 )?)
             }
             PartialType::Array(aty) => {
-                let element_type = partials.resolve(&aty.element_type)?;
+                let element_type = partials.resolve(&aty.element_type, depth)?;
 
                 Ok(Type::new_array(aty.num_elements, element_type)?)
             }
             PartialType::FixedVector(vty) => {
                 log::debug!("vty: {:?}", vty);
 
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
                 log::debug!("element_type: {:?}", partials.get(&vty.element_type));
 
                 Ok(Type::new_vector(vty.num_elements, element_type)?)
             }
             PartialType::ScalableVector(vty) => {
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
 
                 Ok(Type::new_scalable_vector(vty.num_elements, element_type)?)
             }
@@ -225,6 +237,9 @@ struct PartialTypeTable {
 }
 
 impl PartialTypeTable {
+    /// The maximum depth of nested types that we're willing to resolve.
+    const MAX_TYPE_DEPTH: usize = 256;
+
     fn new(numentries: usize) -> Self {
         // NOTE: numentries is untrusted, so we don't reserve any space based on it.
         Self {
@@ -245,14 +260,14 @@ impl PartialTypeTable {
     }
 
     /// Fallibly converts the given `TypeRef` into a fully owned `Type`.
-    fn resolve(&self, ty_ref: &TypeRef) -> Result<Type, TypeTableError> {
+    fn resolve(&self, ty_ref: &TypeRef, depth: usize) -> Result<Type, TypeTableError> {
         // `TypeRef` resolution happens in two steps: we grab the corresponding
         // `PartialType`, and then resolve its subtypes.
         let pty = self.get(ty_ref)?;
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        pty.resolve(self, depth)
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -266,7 +281,7 @@ impl PartialTypeTable {
         let types = self
             .inner
             .iter()
-            .map(|pty| pty.resolve(&self))
+            .map(|pty| pty.resolve(&self, 0))
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypeTable(types))
-- 
2.43.0


From 9c1d01c6b0965c891252dd5c450e81331ec9a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 23/43] fix: decode COMDAT selection kinds with LLVM's
 numbering

Bitcode numbers the selection kinds from 1 (any) to 5 (samesize), so every kind
was decoded as the next one, and samesize was rejected.
---
 llvm-mapper/src/record/comdat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..579be93 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -43,7 +43,8 @@ pub enum ComdatError {
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    // NOTE: The encoding begins at 1; see `getEncodedComdatSelectionKind` in LLVM.
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
     ExactMatch,
     /// The linker will choose the largest COMDAT.
-- 
2.43.0


From 9412d455bc0ba6462327f90545a4733c00b7e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 24/43] fix: account for the address space in alias records

MODULE_CODE_ALIAS records carry the alias's address space after its type, so the
aliasee and everything after it was read from the field before.
---
 llvm-mapper/src/record/alias.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/llvm-mapper/src/record/alias.rs b/llvm-mapper/src/record/alias.rs
index 4bad8d2..5e7581a 100644
--- a/llvm-mapper/src/record/alias.rs
+++ b/llvm-mapper/src/record/alias.rs
@@ -16,7 +16,7 @@ use crate::unroll::Record;
 #[derive(Debug, Error)]
 pub enum AliasError {
     /// The alias record is too short to be well-formed.
-    #[error("alias record too short: {0} < 5 fields")]
+    #[error("alias record too short: {0} < 6 fields")]
     TooShort(usize),
 
     /// The alias record is in an old unsupported format.
@@ -81,10 +81,10 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             return Err(AliasError::V1Unsupported);
         }
 
-        // Every alias record has at least 5 fields, corresponding to
-        // [strtab_offset, strtab_size, *v1], where v1 has 3 mandatory fields:
-        // [alias type, aliasee value#, linkage, ...]
-        if fields.len() < 5 {
+        // Every alias record has at least 6 fields, corresponding to
+        // [strtab_offset, strtab_size, *v1], where v1 has 4 mandatory fields:
+        // [alias type, address space, aliasee value#, linkage, ...]
+        if fields.len() < 6 {
             return Err(AliasError::TooShort(fields.len()));
         }
 
@@ -93,32 +93,32 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             .type_table
             .get(fields[2])
             .ok_or(AliasError::Type(fields[2]))?;
-        let value_index = fields[3];
-        let linkage = Linkage::from(fields[4]);
+        let value_index = fields[4];
+        let linkage = Linkage::from(fields[5]);
 
         let visibility = fields
-            .get(5)
+            .get(6)
             .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;
 
-        let storage_class = fields.get(6).map_or_else(
+        let storage_class = fields.get(7).map_or_else(
             || Ok(DllStorageClass::Default),
             |v| DllStorageClass::try_from(*v),
         )?;
 
         let tls_mode = fields
-            .get(7)
+            .get(8)
             .copied()
             .map(ThreadLocalMode::from)
             .unwrap_or(ThreadLocalMode::NotThreadLocal);
 
         let unnamed_addr = fields
-            .get(8)
+            .get(9)
             .copied()
             .map(UnnamedAddr::from)
             .unwrap_or(UnnamedAddr::None);
 
         let preemption_specifier = fields
-            .get(9)
+            .get(10)
             .copied()
             .map(RuntimePreemption::from)
             .unwrap_or(RuntimePreemption::DsoPreemptable);
-- 
2.43.0


From 1108fdc87d41db21ec51f36f05c6bb4d855f59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 25/43] fix: don't truncate the alignment of functions

An alignment field of e.g. 256 was accepted as 'no alignment'.
---
 llvm-mapper/src/record/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..7001ffd 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -155,7 +155,8 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        // NOTE: Saturate rather than truncate, so that anything too large remains invalid.
+        let alignment = MaybeAlign::try_from(u8::try_from(fields[7]).unwrap_or(u8::MAX))?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From 8c7eaf607c4218f76e1c1c3eb93484afa295ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 26/43] fix: return an error instead of panicking on function
 blocks

Mapping function bodies isn't implemented yet. Say so with an error, like the
other unsupported constructs do: every module with a function body, and a few
bytes of untrusted input, panicked (or requested an arbitrarily large
allocation).
---
 llvm-mapper/src/block/function/mod.rs | 102 ++++++++++++++------------
 1 file changed, 56 insertions(+), 46 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..7079581 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -58,7 +58,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
         // TODO: Handle each `MODULE_CODE_FUNCTION`'s sub-blocks.
 
         // A function block should have exactly one DECLAREBLOCKS record.
-        let nblocks = {
+        let _nblocks = {
             let declareblocks = block
                 .records
                 .exactly_one(FunctionCode::DeclareBlocks)
@@ -72,7 +72,8 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
 
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        // NOTE: The block count is untrusted, so we don't reserve any space based on it.
+        let mut _bbs: Vec<BasicBlock> = Vec::new();
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
@@ -103,6 +104,15 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 };
             }
 
+            macro_rules! unsupported {
+                () => {
+                    Err(MapError::Unsupported(format!(
+                        "unsupported: function code {code:?}; please implement!"
+                    ))
+                    .into())
+                };
+            }
+
             // Function codes fall into a few general categories:
             //
             // * State machine management (`DECLAREBLOCKS`)
@@ -116,11 +126,11 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => return unsupported!(),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => return unsupported!(),
+                FunctionCode::DebugLocAgain => return unsupported!(),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -133,18 +143,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => return unsupported!(),
+                FunctionCode::InstSelect => return unsupported!(),
+                FunctionCode::InstExtractelt => return unsupported!(),
+                FunctionCode::InstInsertelt => return unsupported!(),
+                FunctionCode::InstShufflevec => return unsupported!(),
+                FunctionCode::InstCmp => return unsupported!(),
+                FunctionCode::InstRet => return unsupported!(),
+                FunctionCode::InstBr => return unsupported!(),
+                FunctionCode::InstSwitch => return unsupported!(),
+                FunctionCode::InstInvoke => return unsupported!(),
+                FunctionCode::InstUnreachable => return unsupported!(),
+                FunctionCode::InstPhi => return unsupported!(),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -153,49 +163,49 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => return unsupported!(),
+                FunctionCode::InstStoreOld => return unsupported!(),
+                FunctionCode::InstExtractval => return unsupported!(),
+                FunctionCode::InstInsertval => return unsupported!(),
+                FunctionCode::InstCmp2 => return unsupported!(),
+                FunctionCode::InstVselect => return unsupported!(),
+                FunctionCode::InstInboundsGepOld => return unsupported!(),
+                FunctionCode::InstIndirectbr => return unsupported!(),
+                FunctionCode::InstCall => return unsupported!(),
+                FunctionCode::InstFence => return unsupported!(),
+                FunctionCode::InstCmpxchgOld => return unsupported!(),
+                FunctionCode::InstAtomicrmwOld => return unsupported!(),
+                FunctionCode::InstResume => return unsupported!(),
+                FunctionCode::InstLandingpadOld => return unsupported!(),
+                FunctionCode::InstLoadatomic => return unsupported!(),
+                FunctionCode::InstStoreatomicOld => return unsupported!(),
+                FunctionCode::InstGep => return unsupported!(),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => return unsupported!(),
+                FunctionCode::InstCmpxchg => return unsupported!(),
+                FunctionCode::InstLandingpad => return unsupported!(),
+                FunctionCode::InstCleanupret => return unsupported!(),
+                FunctionCode::InstCatchret => return unsupported!(),
+                FunctionCode::InstCatchpad => return unsupported!(),
+                FunctionCode::InstCleanuppad => return unsupported!(),
+                FunctionCode::InstCatchswitch => return unsupported!(),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => return unsupported!(),
+                FunctionCode::InstFreeze => return unsupported!(),
+                FunctionCode::InstAtomicrmw => return unsupported!(),
             }
         }
 
-        unimplemented!()
+        Err(MapError::Unsupported("unsupported: basic blocks; please implement!".into()).into())
     }
 }
-- 
2.43.0


From 5a31933c9c778b81b226c8a934b2067218c7d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 27/43] fix: don't overflow the stack on deeply nested blocks

---
 llvm-mapper/src/unroll.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 9671753..a976aab 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -263,10 +263,19 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
 
     /// Attempt to map the given bitstream into an `Bitcode`.
     fn try_from(mut bitstream: Bitstream<T>) -> Result<Bitcode, Self::Error> {
+        // NOTE: Blocks are unrolled (and dropped) recursively, so their nesting has to be limited.
+        // Real bitcode only nests a handful of blocks.
+        const MAX_BLOCK_DEPTH: usize = 128;
+
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            if depth > MAX_BLOCK_DEPTH {
+                return Err(Error::Unroll("blocks are nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +292,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +334,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 0)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From ed20fb1adcf8ab4caeb3363e5a2f0cab44f80fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 28/43] fix: rewrite pointer alignments for an address space
 that's already present

The lookup compared whole specifications, so one with e.g. a different size was
added as a duplicate instead of replacing the old one.
---
 llvm-support/src/align.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..fb47032 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -722,15 +722,8 @@ impl PointerAlignSpecs {
             // If we have a match, then we need to either insert or update
             // depending on whether our match is the same spec as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
-                true => {
-                    // Unwrap safety: `pos` is a valid index returned above.
-                    #[allow(clippy::unwrap_used)]
-                    let other = self.0.get_mut(pos).unwrap();
-
-                    other.abi_alignment = spec.abi_alignment;
-                    other.preferred_alignment = spec.preferred_alignment;
-                }
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
+                true => self.0[pos] = spec,
                 false => {
                     self.0.insert(pos + 1, spec);
                 }
-- 
2.43.0


From 6c605a0a5e23dee1f87907e8ad55d3297e450a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 29/43] fix: uphold the preferred alignment invariant when
 parsing pointer alignments

Parsing bypassed the constructor, so 'p:64:64:32' produced a preferred alignment
that's less than the ABI alignment.
---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index fb47032..1ef01e5 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -644,13 +644,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        Self::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From fb88d4b7fd78ccc4894c7d347126dde0b161bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 30/43] fix: don't panic when parsing an alignment from a
 non-ASCII string

---
 llvm-support/src/align.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 1ef01e5..c5b53ce 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -341,7 +341,7 @@ impl FromStr for TypeAlignSpec {
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
-        let body = &value[1..];
+        let body = &value[id.len_utf8()..];
         let parts: Vec<&str> = body.split(':').collect();
 
         match id {
@@ -611,7 +611,9 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
-        let parts: Vec<&str> = value[1..].split(':').collect();
+        let mut chars = value.chars();
+        chars.next();
+        let parts: Vec<&str> = chars.as_str().split(':').collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
         // `pref` and `idx` being optional.
-- 
2.43.0


From efd8228fe337669e25eeca486e93b1c61b9efcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 31/43] fix: decode binary operations on integer and
 floating-point types

---
 llvm-support/src/opcode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 694f31d..1d09f9d 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -155,7 +155,7 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
         let is_fp = ty.is_floating_or_floating_vector();
 
         // Binary operations are only valid on integer/fp types or vectors thereof.
-        if !is_fp || !ty.is_integer_or_integer_vector() {
+        if !is_fp && !ty.is_integer_or_integer_vector() {
             return Err(BinaryOpError::InvalidType(ty.clone()));
         }
 
@@ -177,13 +177,13 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
             (BinaryOpcode::SRem, false) => BinaryOp::SRem,
             (BinaryOpcode::SRem, true) => BinaryOp::FRem,
             // The rest are all integer-type only.
-            (BinaryOpcode::Shl, true) => BinaryOp::Shl,
-            (BinaryOpcode::LShr, true) => BinaryOp::LShr,
-            (BinaryOpcode::AShr, true) => BinaryOp::AShr,
-            (BinaryOpcode::And, true) => BinaryOp::And,
-            (BinaryOpcode::Or, true) => BinaryOp::Or,
-            (BinaryOpcode::Xor, true) => BinaryOp::Xor,
-            (_, false) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
+            (BinaryOpcode::Shl, false) => BinaryOp::Shl,
+            (BinaryOpcode::LShr, false) => BinaryOp::LShr,
+            (BinaryOpcode::AShr, false) => BinaryOp::AShr,
+            (BinaryOpcode::And, false) => BinaryOp::And,
+            (BinaryOpcode::Or, false) => BinaryOp::Or,
+            (BinaryOpcode::Xor, false) => BinaryOp::Xor,
+            (_, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
         })
     }
 }
-- 
2.43.0


From 56dc69e1f5c337bf956e20778902f66e82a12cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 32/43] fix: accept vectors of opaque pointers

---
 llvm-support/src/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..a5c2bec 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,11 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating()
+            || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From 52de5b7fe67fd9b2fb71b682e9b9d485f37e8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 33/43] fix: use LLVM's default alignments for i64, aggregates,
 and vectors

---
 llvm-support/src/align.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index c5b53ce..6397ad8 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -260,6 +260,8 @@ impl AlignedType {
     make_const_aligned!(Integer, 16);
     make_const_aligned!(Integer, 32);
     make_const_aligned!(Integer, 64);
+    make_const_aligned!(Vector, 64);
+    make_const_aligned!(Vector, 128);
 }
 
 /// Errors that can occur when constructing a [`TypeAlignSpec`](TypeAlignSpec)
@@ -469,7 +471,7 @@ impl Default for TypeAlignSpecs {
         // into an infallible constant.
         #[allow(clippy::unwrap_used)]
         Self(vec![
-            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT32, Align::ALIGN32, Align::ALIGN32).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT64, Align::ALIGN64, Align::ALIGN64).unwrap(),
@@ -478,7 +480,9 @@ impl Default for TypeAlignSpecs {
             TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN8, Align::ALIGN8).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER32, Align::ALIGN32, Align::ALIGN32).unwrap(),
-            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN32, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR128, Align::ALIGN128, Align::ALIGN128).unwrap(),
         ])
     }
 }
@@ -1005,7 +1009,7 @@ mod tests {
             // Ordered insertion (append) works.
             let mut specs = TypeAlignSpecs(vec![]);
             specs.update(
-                TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+                TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             );
             specs.update(
                 TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN16, Align::ALIGN16).unwrap(),
@@ -1028,7 +1032,7 @@ mod tests {
                 TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN16, Align::ALIGN16).unwrap(),
             );
             specs.update(
-                TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+                TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             );
 
             let copy = {
@@ -1048,7 +1052,7 @@ mod tests {
                 TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN16, Align::ALIGN16).unwrap(),
             );
             specs.update(
-                TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+                TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             );
             specs.update(
                 TypeAlignSpec::new(AlignedType::FLOAT16, Align::ALIGN16, Align::ALIGN16).unwrap(),
-- 
2.43.0


From 7f400b69d9583ff3483c3262eed1734d21da0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 34/43] fix: accept an ABI alignment of zero for aggregates

---
 llvm-support/src/align.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 6397ad8..7dccdfe 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -370,7 +370,12 @@ impl FromStr for TypeAlignSpec {
                 let abi = parts[0]
                     .parse::<u64>()
                     .map_err(|e| AlignSpecError::Parse(e.to_string()))
-                    .and_then(|a| Align::from_bit_align(a).map_err(Into::into))?;
+                    .and_then(|a| match a {
+                        // NOTE: Aggregates are allowed to have an ABI alignment of zero,
+                        // i.e. no alignment requirements of their own.
+                        0 => Ok(Align::ALIGN8),
+                        a => Align::from_bit_align(a).map_err(Into::into),
+                    })?;
 
                 let pref = parts
                     .get(1)
-- 
2.43.0


From 48f6d90375e59692a028278abf343a632ed79d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 35/43] verif: observe mapped modules behind cfg(mollusc_verif)

---
 llvm-mapper/src/block/attributes.rs |  8 +++++
 llvm-mapper/src/block/module.rs     |  3 ++
 llvm-mapper/src/lib.rs              |  4 +++
 llvm-mapper/src/verif.rs            | 49 +++++++++++++++++++++++++++++
 4 files changed, 64 insertions(+)
 create mode 100644 llvm-mapper/src/verif.rs

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 6a8151f..01531aa 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -450,6 +450,14 @@ impl Attribute {
 #[derive(Debug)]
 pub struct AttributeEntry(Vec<AttributeGroup>);
 
+#[cfg(mollusc_verif)]
+impl AttributeEntry {
+    /// Returns the groups in this entry, in order.
+    pub fn groups(&self) -> &[AttributeGroup] {
+        &self.0
+    }
+}
+
 /// Maps all attributes in an IR module.
 #[derive(Debug, Default)]
 pub struct Attributes(Vec<AttributeEntry>);
diff --git a/llvm-mapper/src/block/module.rs b/llvm-mapper/src/block/module.rs
index 40dfd8f..59ca0d1 100644
--- a/llvm-mapper/src/block/module.rs
+++ b/llvm-mapper/src/block/module.rs
@@ -224,6 +224,9 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
 
         log::debug!("aliases: {:?}", aliases);
 
+        #[cfg(mollusc_verif)]
+        crate::verif::notify(&ctx, &function_records, &aliases);
+
         Ok(Self {
             triple,
             asm,
diff --git a/llvm-mapper/src/lib.rs b/llvm-mapper/src/lib.rs
index 32ce9e2..6c48f32 100644
--- a/llvm-mapper/src/lib.rs
+++ b/llvm-mapper/src/lib.rs
@@ -5,11 +5,15 @@
 #![deny(missing_docs)]
 #![allow(clippy::redundant_field_names)]
 #![forbid(unsafe_code)]
+// `mollusc_verif` is only set by verification harnesses, via `RUSTFLAGS`.
+#![allow(unexpected_cfgs)]
 
 pub mod block;
 pub mod error;
 pub mod map;
 pub mod record;
 pub mod unroll;
+#[cfg(mollusc_verif)]
+pub mod verif;
 
 pub use unroll::Bitcode;
diff --git a/llvm-mapper/src/verif.rs b/llvm-mapper/src/verif.rs
new file mode 100644
index 0000000..293f552
--- /dev/null
+++ b/llvm-mapper/src/verif.rs
@@ -0,0 +1,49 @@
+//! Observation points for verification harnesses.
+//!
+//! This module only exists when the crate is built with `--cfg mollusc_verif`. It doesn't change
+//! how anything is mapped: it only hands out shared references to intermediate states that aren't
+//! (yet) part of a mapped [`Module`](crate::block::Module).
+
+use std::cell::RefCell;
+
+use llvm_support::Type;
+
+use crate::block::{AttributeEntry, AttributeGroup};
+use crate::map::MapCtx;
+use crate::record::{Alias, Function};
+
+/// A callback for each module that has been mapped successfully.
+pub type ModuleObserver = Box<dyn FnMut(&MapCtx, &[Function], &[Alias])>;
+
+thread_local! {
+    static OBSERVER: RefCell<Option<ModuleObserver>> = const { RefCell::new(None) };
+}
+
+/// Set (or clear) the observer for modules mapped on the current thread.
+pub fn set_observer(observer: Option<ModuleObserver>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer);
+}
+
+/// Call the current thread's observer, if there is one.
+pub(crate) fn notify(ctx: &MapCtx, functions: &[Function], aliases: &[Alias]) {
+    OBSERVER.with(|o| {
+        if let Some(observer) = o.borrow_mut().as_mut() {
+            observer(ctx, functions, aliases);
+        }
+    });
+}
+
+/// Returns every type in the context's type table, in order.
+pub fn types<'ctx>(ctx: &MapCtx<'ctx>) -> Vec<&'ctx Type> {
+    (0u64..).map_while(|id| ctx.type_table.get(id)).collect()
+}
+
+/// Returns every attribute entry in the context, in order.
+pub fn attribute_entries<'ctx>(ctx: &MapCtx<'ctx>) -> Vec<&'ctx AttributeEntry> {
+    (0u64..).map_while(|id| ctx.attributes.get(id)).collect()
+}
+
+/// Returns the attribute group with the given ID, if there is one.
+pub fn attribute_group<'ctx>(ctx: &MapCtx<'ctx>, id: u32) -> Option<&'ctx AttributeGroup> {
+    ctx.attribute_groups.get(id)
+}
-- 
2.43.0


From 2fdb46cc8d7cb40a4a24e3e4ec29d75a0449882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 36/43] fix: map functions and aliases without a name

---
 llvm-mapper/src/block/strtab.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index a542760..d9876d1 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -99,8 +99,14 @@ impl Strtab {
     /// Panic safety: precondition: `record.fields().len() >= 2`
     pub(crate) fn read_name(&self, record: &Record) -> Result<&str, StrtabError> {
         let fields = record.fields();
+        let sref: StrtabRef = (fields[0], fields[1]).into();
 
-        self.try_get(&(fields[0], fields[1]).into())
+        // Unnamed values have an empty name, which doesn't reference the string table at all.
+        if sref.size == 0 && sref.offset <= self.0.len() {
+            return Ok("");
+        }
+
+        self.try_get(&sref)
     }
 }
 
-- 
2.43.0


From 8f3ff404345bc23bc3585cf9562cc7cddbf17f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 37/43] fix: reject pointer alignment specs that don't start
 with 'p'

---
 llvm-support/src/align.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 7dccdfe..ea6ccb8 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -621,7 +621,12 @@ impl FromStr for PointerAlignSpec {
         }
 
         let mut chars = value.chars();
-        chars.next();
+        if chars.next() != Some('p') {
+            return Err(AlignSpecError::Parse(format!(
+                "not a pointer align spec: {}",
+                value
+            )));
+        }
         let parts: Vec<&str> = chars.as_str().split(':').collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
-- 
2.43.0


From d0433b163d3dca8b4a1891d796042d86166bda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 38/43] fix: reject mangling specs with trailing characters

---
 llvm-mapper/src/record/datalayout.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index ec771eb..72c8c11 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -168,7 +168,13 @@ impl FromStr for DataLayout {
                 'm' => {
                     // The mangling spec is `m:X`, where `X` is the mangling kind.
                     // We've already parsed `m`, so we expect exactly two characters.
-                    let mut mangling = body.chars().take(2);
+                    if body.len() > 2 {
+                        return Err(DataLayoutError::BadSpecParse(format!(
+                            "unknown mangling kind in spec: {}",
+                            body
+                        )));
+                    }
+                    let mut mangling = body.chars();
                     match mangling.next() {
                         Some(':') => {}
                         Some(u) => {
-- 
2.43.0


From 5e004f6966d368d10ebef21434008a1a52d09bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 39/43] fix: reject non-integral address space specs with a bad
 separator

---
 llvm-mapper/src/record/datalayout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 72c8c11..5aee37e 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -222,6 +222,12 @@ impl FromStr for DataLayout {
                                     "cannot find address space 0".into(),
                                 ));
                             }
+                            if body.len() > 2 && body.as_bytes()[1] != b':' {
+                                return Err(DataLayoutError::BadSpecParse(format!(
+                                    "bad separator for non-integral address space spec: {}",
+                                    body
+                                )));
+                            }
                             datalayout.non_integral_address_spaces = body[2..]
                                 .split(':')
                                 .map(|s| {
-- 
2.43.0


From 7fe98a67495b41b751ffca6d2846e09f22481f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 40/43] fix: reject native integer widths of zero

---
 llvm-mapper/src/record/datalayout.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 5aee37e..4fcbd36 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -249,7 +249,12 @@ impl FromStr for DataLayout {
                         Some(_) => {
                             datalayout.native_integer_widths = body
                                 .split(':')
-                                .map(|s| s.parse::<u32>())
+                                .map(|s| match s.parse::<u32>()? {
+                                    0 => Err(DataLayoutError::BadSpecParse(
+                                        "native integer width cannot be zero".into(),
+                                    )),
+                                    width => Ok(width),
+                                })
                                 .collect::<Result<_, _>>()?;
                         }
                         None => {
-- 
2.43.0


From aef08b4519d4c10d354fb163464410b81e9a2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 41/43] fix: reject explicit signs in data layout numbers

---
 llvm-mapper/src/record/datalayout.rs |  8 ++++++++
 llvm-support/src/align.rs            | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 4fcbd36..83c5dcb 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -110,6 +110,14 @@ impl FromStr for DataLayout {
                 return Err(DataLayoutError::EmptySpec);
             }
 
+            // NOTE: No spec has signed numbers, but Rust's integer parsing accepts an explicit sign.
+            if spec.contains('+') {
+                return Err(DataLayoutError::BadSpecParse(format!(
+                    "unexpected sign in spec: {}",
+                    spec
+                )));
+            }
+
             let body = &spec[1..];
 
             // Unwrap safety: we check for a nonempty spec above.
diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index ea6ccb8..d7b3783 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -340,6 +340,14 @@ impl FromStr for TypeAlignSpec {
             ));
         }
 
+        // NOTE: No spec has signed numbers, but Rust's integer parsing accepts an explicit sign.
+        if value.contains('+') {
+            return Err(AlignSpecError::Parse(format!(
+                "unexpected sign in spec: {}",
+                value
+            )));
+        }
+
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
@@ -620,6 +628,14 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
+        // NOTE: No spec has signed numbers, but Rust's integer parsing accepts an explicit sign.
+        if value.contains('+') {
+            return Err(AlignSpecError::Parse(format!(
+                "unexpected sign in spec: {}",
+                value
+            )));
+        }
+
         let mut chars = value.chars();
         if chars.next() != Some('p') {
             return Err(AlignSpecError::Parse(format!(
-- 
2.43.0


From 303e5546d813a81a28dcad03871097c76d53f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:25 +0000
Subject: [PATCH 42/43] fix: keep the aggregate alignment of a data layout up
 to date

---
 llvm-mapper/src/record/datalayout.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 83c5dcb..253a004 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -5,7 +5,7 @@ use std::num::ParseIntError;
 use std::str::FromStr;
 
 use llvm_support::{
-    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, Endian,
+    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, AlignedType, Endian,
     FunctionPointerAlign, Mangling, PointerAlignSpec, PointerAlignSpecs, TypeAlignSpec,
     TypeAlignSpecs,
 };
@@ -146,6 +146,9 @@ impl FromStr for DataLayout {
                 'i' | 'v' | 'f' | 'a' => {
                     // Pass the entire spec in here, since we need the spec identifier as well.
                     let align_spec = spec.parse::<TypeAlignSpec>()?;
+                    if matches!(align_spec.aligned_type, AlignedType::Aggregate) {
+                        datalayout.aggregate_alignment = align_spec.abi_alignment;
+                    }
                     datalayout.type_alignments.update(align_spec);
                 }
                 'F' => match body.chars().next() {
-- 
2.43.0


From c50140b71ab5d9af64b2a2803c98173a3aaad20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:26 +0000
Subject: [PATCH 43/43] fix: honour abbreviated records in BLOCKINFO blocks

A SETBID record in a BLOCKINFO block that's written with an abbreviation
(registered for BLOCKINFO itself by an earlier one) was ignored, so the
abbreviations that followed it were registered for the wrong block.
---
 llvm-bitstream/src/parser.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index f8e971e..5499cec 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -328,7 +328,12 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             fields.push(self.cursor.read_vbr(6)?);
         }
 
-        let record = Record::from_unabbrev(code, fields);
+        self.finish_record(Record::from_unabbrev(code, fields))
+    }
+
+    /// Turn a complete record into its [`StreamEntry`](StreamEntry), or interpret it
+    /// if it belongs to a `BLOCKINFO` block.
+    fn finish_record(&mut self, record: Record) -> Result<Option<StreamEntry>, Error> {
         if self.scope().is_blockinfo() {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
@@ -375,15 +380,11 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         }
         let code: u64 = fields.remove(0);
 
-        if self.scope().is_blockinfo() {
-            return Ok(None);
-        }
-
-        Ok(Some(StreamEntry::Record(Record {
+        self.finish_record(Record {
             abbrev_id: Some(abbrev_id),
             code: code,
             fields: fields,
-        })))
+        })
     }
 
     /// Return the next [`StreamEntry`](StreamEntry) in this bitstream.
-- 
2.43.0

