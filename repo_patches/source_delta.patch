From 255165be64278a2ecdd9c6684ac340a71e9d2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 01/40] fix: report VBR encodings wider than 64 bits instead of
 overflowing the shift

---
 llvm-bitcursor/src/error.rs | 4 ++++
 llvm-bitcursor/src/lib.rs   | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/error.rs b/llvm-bitcursor/src/error.rs
index 905a66c..480aaa1 100644
--- a/llvm-bitcursor/src/error.rs
+++ b/llvm-bitcursor/src/error.rs
@@ -25,6 +25,10 @@ pub enum Error {
     #[cfg(any(feature = "vbr", doc))]
     #[error("invalid VBR width (must be > 1 but <= system word width)")]
     InvalidVbrWidth,
+    /// A VBR read API encountered an encoding that doesn't fit into 64 bits.
+    #[cfg(any(feature = "vbr", doc))]
+    #[error("VBR encoding exceeds 64 bits")]
+    VbrOverflow,
     /// An I/O operation completed partially, but the inner buffer ended before it full completion.
     #[error("too little data to service request")]
     Short,
diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..02ff5d8 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -298,7 +298,14 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             // Read a block, add it to the result (with the potential continuation bit masked off)
             let block = self.read(width)?;
             log::debug!("block: {:#b}, masked: {:#b}", block, block & !block_mask);
-            result |= (block & !block_mask) << shift;
+
+            // VBRs that don't fit into 64 bits aren't supported: neither their
+            // blocks nor the significant bits within those blocks can exceed that.
+            let masked = block & !block_mask;
+            if shift >= u64::BITS as usize || (masked << shift) >> shift != masked {
+                return Err(Error::VbrOverflow);
+            }
+            result |= masked << shift;
 
             // If we don't have a continuation bit, then we're done with the VBR.
             let continuation = (block & block_mask) != 0;
-- 
2.43.0


From 693efa3f6b5d012f084b0ba5548c0ce9c44d2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 02/40] fix: align32 to the next 32-bit boundary of the data,
 not of the cached block

---
 llvm-bitcursor/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 02ff5d8..7e24521 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -345,10 +345,15 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
+        // NOTE: The boundary is relative to the beginning of the data, **not** to
+        // the end of the current block: blocks can be short or start unaligned.
+        let skip = (32 - self.tell_bit() % 32) % 32;
+        if skip < self.bit_index {
+            self.current_block >>= skip;
+            self.bit_index -= skip;
         } else {
+            let byte_skip = (skip - self.bit_index) / 8;
+            self.byte_pos = usize::min(self.byte_pos + byte_skip, self.byte_len());
             self.clear_block_state();
         }
     }
-- 
2.43.0


From 9b8fe752663986672b7cea35e27404218f48ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 03/40] fix: reject out-of-bounds seek_bit targets before
 moving the cursor

---
 llvm-bitcursor/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 7e24521..311ef97 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -121,7 +121,7 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
         // Get the byte corresponding to this bit.
         let byte_pos = (pos / 8) & !(Self::BLOCK_SIZE - 1);
 
-        if byte_pos > self.byte_len() {
+        if pos > self.bit_len() {
             return Err(Error::Eof);
         }
 
-- 
2.43.0


From f9967a3abd00dec1e018f361a1e6b7756b874263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 04/40] fix: don't overflow on extreme relative seeks

---
 llvm-bitcursor/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 311ef97..187268a 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -385,7 +385,9 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
                 // Seeking backwards from the end is perfectly fine.
                 ((self.byte_len() as i64) + pos) as u64
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
+            // NOTE: Wrapping here is fine, since it can only produce a negative offset,
+            // which is impossibly large once cast below.
+            io::SeekFrom::Current(pos) => (self.tell_byte() as i64).wrapping_add(pos) as u64,
         } as usize;
 
         // Sanity check: we can't seek before or beyond the backing buffer.
-- 
2.43.0


From 85d7c70bd83ea4122c5d2a961cc0b05cc84449ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 05/40] fix: allow seeking to the exact end relative to the end

---
 llvm-bitcursor/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 187268a..35f6502 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -375,14 +375,14 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
         let off = match pos {
             io::SeekFrom::Start(pos) => pos,
             io::SeekFrom::End(pos) => {
-                if pos >= 0 {
+                if pos > 0 {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
                         "cannot seek past end",
                     ));
                 }
 
-                // Seeking backwards from the end is perfectly fine.
+                // Seeking backwards from the end (or to the end) is perfectly fine.
                 ((self.byte_len() as i64) + pos) as u64
             }
             // NOTE: Wrapping here is fine, since it can only produce a negative offset,
-- 
2.43.0


From 3b5cc8cf9ef28b60c064ea2aa0a7a62a066f6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 06/40] fix: decode the signed VBR negative zero as the minimum
 integer

---
 llvm-bitcursor/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 35f6502..b1548db 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -332,7 +332,10 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
         let sgn = (result & 1) != 0;
         result >>= 1;
 
-        if sgn {
+        if sgn && result == 0 {
+            // Like LLVM: there is no negative zero, so its encoding is the minimum value.
+            Ok(isize::MIN)
+        } else if sgn {
             Ok(-(result as isize))
         } else {
             Ok(result as isize)
-- 
2.43.0


From fe709405e6f00b830834591f6c8b014e62a95112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 07/40] fix: end a wrapped bitstream at offset + size, not at
 header + size

---
 llvm-bitstream/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..6799693 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -120,10 +120,10 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
-        // in the new cursor to make the offsets more intelligible, which means that we
-        // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        // The manual fixup (+ offset) is another artifact of this -- we keep everything before
+        // the bitstream in the new cursor to make the offsets more intelligible, which means
+        // that we also need to extend the end of our cursor's buffer.
+        let actual_length = (wrapper.size as usize) + (wrapper.offset as usize);
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From 827e1628f6a99068aeb9807eb1f86725f3070ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 08/40] fix: don't reserve memory for untrusted array, blob and
 operand counts

---
 llvm-bitstream/src/abbrev.rs | 7 ++++---
 llvm-bitstream/src/parser.rs | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..7028aa3 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -75,10 +75,10 @@ impl AbbrevOp {
             AbbrevOp::Array(elem) => {
                 // An array operand is encoded as a length (VBR6), followed by
                 // each encoded element of the array.
-                // TODO(ww): Sanity check array_len here.
+                // NOTE: array_len is untrusted, so don't reserve space for it up-front.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                let mut fields: Fields = Vec::new();
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -98,7 +98,8 @@ impl AbbrevOp {
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                // NOTE: blob_len is untrusted, so don't reserve space for it up-front.
+                let mut fields: Fields = Vec::new();
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..17e1c3d 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        // NOTE: num_opnds is untrusted, so don't reserve space for it up-front.
+        let mut fields: Fields = Vec::new();
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From d04ec3839984d48dde6622252e0115ec2ac757eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 09/40] fix: don't underflow on a lone array operand in an
 abbreviation definition

---
 llvm-bitstream/src/abbrev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 7028aa3..105da52 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -175,7 +175,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if idx + 2 != num_abbrev_opnds {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
-- 
2.43.0


From ba85bf1a524763190223c01cedb088acf71ec868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 10/40] fix: reject literal array elements instead of
 misreading them as encoded

---
 llvm-bitstream/src/abbrev.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 105da52..bdd5151 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -184,7 +184,11 @@ impl Abbrev {
                     // `done_early` to indicate that we're done with operand parsing.
                     // This works since array operands are guaranteed to be second-to-last,
                     // followed only by their element operand encoding.
-                    cur.read(1)?;
+                    if cur.read(1)? == 1 {
+                        return Err(Error::AbbrevParse(
+                            "array element type cannot be a literal".into(),
+                        ));
+                    }
                     let elem_enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
                     done_early = true;
 
-- 
2.43.0


From 8e64c5c57b88230082b545852e761b01b6a21d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 11/40] fix: reject abbreviated records without a record code
 instead of panicking

---
 llvm-bitstream/src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 17e1c3d..f752364 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -362,8 +362,15 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
-        // We also expect the first operand to always be a u64, indicating the record code.
+        // Every abbrev contains at least one operand, but that operand might be an empty
+        // array or blob, which leaves us without a record code.
+        if fields.is_empty() {
+            return Err(Error::StreamParse(
+                "abbreviated record has no record code".into(),
+            ));
+        }
+
+        // We expect the first operand to always be a u64, indicating the record code.
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From 650e4d9cb877bb562180794668be70ef44f0dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 12/40] fix: reject SETBID records without operands instead of
 panicking

---
 llvm-bitstream/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index f752364..70eabdd 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -333,7 +333,10 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record
+                        .fields
+                        .first()
+                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From 15c00ada0a8fa5f038e67d78df0d0455138dc1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 13/40] fix: treat zero-width abbreviation operands as literal
 zeroes

---
 llvm-bitstream/src/abbrev.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index bdd5151..a030504 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -170,8 +170,15 @@ impl Abbrev {
             // operand encoding includes extra data.
             let enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
             let opnd = match enc {
-                AbbrevOpEnc::Fixed => AbbrevOp::Fixed(cur.read_vbr(5)?),
-                AbbrevOpEnc::Vbr => AbbrevOp::Vbr(cur.read_vbr(5)?),
+                // NOTE: Like LLVM, we treat zero-width fields as literal zeroes.
+                AbbrevOpEnc::Fixed => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Fixed(width),
+                },
+                AbbrevOpEnc::Vbr => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Vbr(width),
+                },
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-- 
2.43.0


From e42893351f2b0d02fda3c694a7522d606965c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 14/40] fix: interpret abbreviated BLOCKINFO records like
 unabbreviated ones

---
 llvm-bitstream/src/parser.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 70eabdd..eb1b84a 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -328,7 +328,12 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             fields.push(self.cursor.read_vbr(6)?);
         }
 
-        let record = Record::from_unabbrev(code, fields);
+        self.surface_record(Record::from_unabbrev(code, fields))
+    }
+
+    /// Turn a parsed record into an entry, or interpret it in place (returning `None`)
+    /// if it belongs to the `BLOCKINFO` block.
+    fn surface_record(&mut self, record: Record) -> Result<Option<StreamEntry>, Error> {
         if self.scope().is_blockinfo() {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
@@ -376,15 +381,7 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         // We expect the first operand to always be a u64, indicating the record code.
         let code: u64 = fields.remove(0);
 
-        if self.scope().is_blockinfo() {
-            return Ok(None);
-        }
-
-        Ok(Some(StreamEntry::Record(Record {
-            abbrev_id: Some(abbrev_id),
-            code: code,
-            fields: fields,
-        })))
+        self.surface_record(Record::from_abbrev(abbrev_id, code, fields))
     }
 
     /// Return the next [`StreamEntry`](StreamEntry) in this bitstream.
-- 
2.43.0


From 6cfdedfed1e98d871b8cc96fa6f565379ea9187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 15/40] fix: skip parse details iteratively instead of
 recursing for each of them

---
 llvm-bitstream/src/parser.rs | 38 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index eb1b84a..de1f10b 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -390,6 +390,19 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
+        // NOTE: This is a loop rather than a recursive call, since the stream controls
+        // how many successive parse details there are.
+        loop {
+            if let Some(entry) = self.advance_item()? {
+                return Ok(entry);
+            }
+        }
+    }
+
+    /// Parse the next item in this bitstream, returning `None` if it's a parse detail
+    /// that a stream consumer shouldn't have to be aware of (such as abbrev definitions
+    /// and the BLOCKINFO block).
+    fn advance_item(&mut self) -> Result<Option<StreamEntry>, Error> {
         if self.cursor.exhausted() {
             return Err(Error::Exhausted);
         }
@@ -409,32 +422,17 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             .into();
         log::debug!("next entry ID: {:?}", id);
 
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
-        // generalized without having to return `StreamEntries` that correspond to
-        // parse details that a stream consumer shouldn't have to be aware of
-        // (such as abbrev definitions and the BLOCKINFO block).
         match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
-            }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block(),
+            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block(),
             AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
                 // DEFINE_ABBREV is always a parse detail, so we don't even bother
                 // trying to return a StreamEntry for it.
                 self.define_abbrev()?;
-                self.advance()
+                Ok(None)
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev(),
+            AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id),
         }
     }
 }
-- 
2.43.0


From 98e1b7af052cfe57e87956caf98373b224ba6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 16/40] fix: don't underflow when extracting text or blobs from
 empty records

---
 llvm-mapper/src/unroll.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..8b1d1fe 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -34,7 +34,7 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx + 1 >= self.0.fields.len() {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
@@ -54,7 +54,7 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx + 1 >= self.0.fields.len() {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
-- 
2.43.0


From c3873066b3ead06378ad36b291f2000c50023fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 17/40] fix: don't overflow on huge string table ranges

---
 llvm-mapper/src/block/strtab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..6b2bf79 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,7 +79,7 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        if sref.size == 0 || sref.offset >= inner.len() || sref.size > inner.len() - sref.offset {
             return Err(StrtabError::BadRange);
         }
 
-- 
2.43.0


From 249aae2ab92b3ea243befb2f19ceb417410b2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 18/40] fix: don't panic on attribute values missing after an
 unterminated key

---
 llvm-mapper/src/block/attributes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..964bcff 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -393,7 +393,10 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                let str_bytes = record
+                    .fields()
+                    .get(start + fieldcount..)
+                    .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
-- 
2.43.0


From 42ca5d3500b95e87723a41f4ff68439d38b88fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 19/40] fix: report old attribute entries as unsupported
 instead of panicking

---
 llvm-mapper/src/block/attributes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 964bcff..4e6a8d4 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -478,7 +478,10 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    return Err(MapError::Unsupported(
+                        "old attribute entry codes; please implement!".into(),
+                    )
+                    .into());
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
-- 
2.43.0


From 6da5a9ddee54ef52fb1ae0e8dc81cdfa2bfc4986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 20/40] fix: don't reserve memory for the untrusted type table
 size

---
 llvm-mapper/src/block/type_table.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..066f794 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -228,7 +228,8 @@ impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            // NOTE: numentries is untrusted, so don't reserve space for it up-front.
+            inner: Vec::new(),
         }
     }
 
@@ -291,7 +292,7 @@ impl TryFrom<&'_ Block> for TypeTable {
     type Error = TypeTableError;
 
     fn try_from(block: &Block) -> Result<Self, Self::Error> {
-        // Figure out how many type entries we have, and reserve the space for them up-front.
+        // Figure out how many type entries we should have.
         let numentries = *block
             .records
             .one(TypeCode::NumEntry)
-- 
2.43.0


From c2e1b59a6325100e6accbd6a3405388a8683062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 21/40] fix: give every struct and opaque type record its own
 type table entry

---
 llvm-mapper/src/block/type_table.rs | 55 ++++++-----------------------
 1 file changed, 11 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 066f794..affbd8e 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -237,10 +237,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -345,25 +341,12 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .into());
                     }
 
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
+                    // An opaque type is a structure type with no body.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
 
                     last_type_name.clear();
                 }
@@ -457,27 +440,11 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types,
+                        is_packed,
+                    }));
 
                     last_type_name.clear();
                 }
-- 
2.43.0


From 2c27989627d5b297a54dc4502ea0e91a7a74e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 22/40] fix: don't truncate integer widths and function
 alignments before validating them

---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 llvm-mapper/src/record/function.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index affbd8e..684e02a 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -351,7 +351,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                     last_type_name.clear();
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width =
+                        u32::try_from(type_field!(0)).map_err(|_| IntegerTypeError::BadWidth)?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..42808cb 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -155,7 +155,8 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        // NOTE: Saturating is fine here, since the largest `u8` is an invalid alignment.
+        let alignment = MaybeAlign::try_from(u8::try_from(fields[7]).unwrap_or(u8::MAX))?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From 56a5d231b841c246b97f272a27e7fd9f051a8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 23/40] fix: reject recursive and excessively nested types
 instead of overflowing the stack

---
 llvm-mapper/src/block/type_table.rs | 37 ++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 684e02a..ad5af1d 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -24,6 +24,10 @@ pub enum TypeTableError {
     #[error("invalid type table index: {0}")]
     BadIndex(usize),
 
+    /// A type is recursive or nested too deeply.
+    #[error("recursive or too deeply nested type")]
+    TooDeep,
+
     /// An unknown record code was seen.
     #[error("unknown type code")]
     UnknownTypeCode(#[from] TryFromPrimitiveError<TypeCode>),
@@ -108,7 +112,15 @@ enum PartialType {
 impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
-    fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+    ///
+    /// `depth` is the nesting depth that this type was found at.
+    fn resolve(&self, partials: &PartialTypeTable, depth: usize) -> Result<Type, TypeTableError> {
+        // Our types are fully owned, so recursive types can't be represented.
+        if depth > PartialTypeTable::MAX_DEPTH {
+            return Err(TypeTableError::TooDeep);
+        }
+        let depth = depth + 1;
+
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -125,17 +137,17 @@ impl PartialType {
             PartialType::Token => Ok(Type::Token),
             PartialType::Integer(ity) => Ok(Type::new_integer(ity.bit_width)?),
             PartialType::Function(fty) => {
-                let return_type = partials.resolve(&fty.return_type)?;
+                let return_type = partials.resolve(&fty.return_type, depth)?;
                 let param_types = fty
                     .param_types
                     .iter()
-                    .map(|ty_ref| partials.resolve(ty_ref))
+                    .map(|ty_ref| partials.resolve(ty_ref, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_function(return_type, param_types, fty.is_vararg)?)
             }
             PartialType::Pointer(pty) => {
-                let pointee = partials.resolve(&pty.pointee)?;
+                let pointee = partials.resolve(&pty.pointee, depth)?;
 
                 Ok(Type::new_pointer(pointee, pty.address_space)?)
             }
@@ -144,7 +156,7 @@ impl PartialType {
                 let field_types = sty
                     .field_types
                     .iter()
-                    .map(|fty| partials.resolve(fty))
+                    .map(|fty| partials.resolve(fty, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_struct(
@@ -154,20 +166,20 @@ impl PartialType {
                 )?)
             }
             PartialType::Array(aty) => {
-                let element_type = partials.resolve(&aty.element_type)?;
+                let element_type = partials.resolve(&aty.element_type, depth)?;
 
                 Ok(Type::new_array(aty.num_elements, element_type)?)
             }
             PartialType::FixedVector(vty) => {
                 log::debug!("vty: {:?}", vty);
 
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
                 log::debug!("element_type: {:?}", partials.get(&vty.element_type));
 
                 Ok(Type::new_vector(vty.num_elements, element_type)?)
             }
             PartialType::ScalableVector(vty) => {
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
 
                 Ok(Type::new_scalable_vector(vty.num_elements, element_type)?)
             }
@@ -225,6 +237,9 @@ struct PartialTypeTable {
 }
 
 impl PartialTypeTable {
+    /// The maximum nesting depth of types that we're willing to resolve.
+    const MAX_DEPTH: usize = 256;
+
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
@@ -245,14 +260,14 @@ impl PartialTypeTable {
     }
 
     /// Fallibly converts the given `TypeRef` into a fully owned `Type`.
-    fn resolve(&self, ty_ref: &TypeRef) -> Result<Type, TypeTableError> {
+    fn resolve(&self, ty_ref: &TypeRef, depth: usize) -> Result<Type, TypeTableError> {
         // `TypeRef` resolution happens in two steps: we grab the corresponding
         // `PartialType`, and then resolve its subtypes.
         let pty = self.get(ty_ref)?;
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        pty.resolve(self, depth)
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -266,7 +281,7 @@ impl PartialTypeTable {
         let types = self
             .inner
             .iter()
-            .map(|pty| pty.resolve(&self))
+            .map(|pty| pty.resolve(&self, 0))
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypeTable(types))
-- 
2.43.0


From 4320795e679fe3e1444c239eac197e8ee231dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 24/40] fix: reject excessively nested blocks instead of
 overflowing the stack

---
 llvm-mapper/src/unroll.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 8b1d1fe..65c8c3a 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -263,10 +263,18 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
 
     /// Attempt to map the given bitstream into an `Bitcode`.
     fn try_from(mut bitstream: Bitstream<T>) -> Result<Bitcode, Self::Error> {
+        // The maximum nesting depth of blocks that we're willing to unroll.
+        const MAX_DEPTH: usize = 256;
+
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            if depth > MAX_DEPTH {
+                return Err(Error::Unroll("blocks are nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +291,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +333,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 1)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From 16fa81af231097e3a4d89fbf8ae45393dc926d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 25/40] fix: account for the address space operand in alias
 records

---
 llvm-mapper/src/record/alias.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/llvm-mapper/src/record/alias.rs b/llvm-mapper/src/record/alias.rs
index 4bad8d2..33fcf1c 100644
--- a/llvm-mapper/src/record/alias.rs
+++ b/llvm-mapper/src/record/alias.rs
@@ -16,7 +16,7 @@ use crate::unroll::Record;
 #[derive(Debug, Error)]
 pub enum AliasError {
     /// The alias record is too short to be well-formed.
-    #[error("alias record too short: {0} < 5 fields")]
+    #[error("alias record too short: {0} < 6 fields")]
     TooShort(usize),
 
     /// The alias record is in an old unsupported format.
@@ -81,10 +81,10 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             return Err(AliasError::V1Unsupported);
         }
 
-        // Every alias record has at least 5 fields, corresponding to
-        // [strtab_offset, strtab_size, *v1], where v1 has 3 mandatory fields:
-        // [alias type, aliasee value#, linkage, ...]
-        if fields.len() < 5 {
+        // Every alias record has at least 6 fields, corresponding to
+        // [strtab_offset, strtab_size, *v1], where v1 has 4 mandatory fields:
+        // [alias type, address space, aliasee value#, linkage, ...]
+        if fields.len() < 6 {
             return Err(AliasError::TooShort(fields.len()));
         }
 
@@ -93,32 +93,33 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             .type_table
             .get(fields[2])
             .ok_or(AliasError::Type(fields[2]))?;
-        let value_index = fields[3];
-        let linkage = Linkage::from(fields[4]);
+        // fields[3]: address space
+        let value_index = fields[4];
+        let linkage = Linkage::from(fields[5]);
 
         let visibility = fields
-            .get(5)
+            .get(6)
             .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;
 
-        let storage_class = fields.get(6).map_or_else(
+        let storage_class = fields.get(7).map_or_else(
             || Ok(DllStorageClass::Default),
             |v| DllStorageClass::try_from(*v),
         )?;
 
         let tls_mode = fields
-            .get(7)
+            .get(8)
             .copied()
             .map(ThreadLocalMode::from)
             .unwrap_or(ThreadLocalMode::NotThreadLocal);
 
         let unnamed_addr = fields
-            .get(8)
+            .get(9)
             .copied()
             .map(UnnamedAddr::from)
             .unwrap_or(UnnamedAddr::None);
 
         let preemption_specifier = fields
-            .get(9)
+            .get(10)
             .copied()
             .map(RuntimePreemption::from)
             .unwrap_or(RuntimePreemption::DsoPreemptable);
-- 
2.43.0


From c39e2610be801e496a1524f4c7ca003ca954d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 26/40] fix: number the COMDAT selection kinds from 1, like
 bitcode does

---
 llvm-mapper/src/record/comdat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..41bd89f 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -43,7 +43,7 @@ pub enum ComdatError {
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
     ExactMatch,
     /// The linker will choose the largest COMDAT.
-- 
2.43.0


From 3d7c14a0cfed1d4c88bdcbc8c681c3f3adfc8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 27/40] fix: read the values of alignment attributes as byte
 alignments

---
 llvm-mapper/src/block/attributes.rs | 48 ++++++++++++-----------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 4e6a8d4..beac8b2 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -4,7 +4,7 @@ use std::convert::{TryFrom, TryInto};
 
 use hashbrown::HashMap;
 use llvm_support::bitcodes::AttributeCode;
-use llvm_support::{AttributeId, AttributeKind, MaybeAlign};
+use llvm_support::{Align, AlignError, AttributeId, AttributeKind, MaybeAlign};
 use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
@@ -270,6 +270,16 @@ pub enum IntAttribute {
     MemoryKind(u64),
 }
 
+/// Interprets an alignment attribute's value, which is a byte alignment, or zero for
+/// an unspecified alignment.
+fn maybe_align_from_bytes(value: u64) -> Result<MaybeAlign, AlignError> {
+    match value {
+        0 => MaybeAlign::try_from(0),
+        // NOTE: `MaybeAlign` is constructed from the encoded form, i.e. the shift plus one.
+        _ => MaybeAlign::try_from(Align::from_byte_align(value)?.shift() + 1),
+    }
+}
+
 impl TryFrom<(AttributeId, u64)> for IntAttribute {
     type Error = AttributeError;
 
@@ -285,34 +295,14 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
         }
 
         Ok(match key {
-            AttributeId::Alignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::Alignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
-            AttributeId::StackAlignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::StackAlignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
+            AttributeId::Alignment => IntAttribute::Alignment(
+                maybe_align_from_bytes(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
+            AttributeId::StackAlignment => IntAttribute::StackAlignment(
+                maybe_align_from_bytes(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
             AttributeId::Dereferenceable => IntAttribute::Dereferenceable(value),
             AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),
             AttributeId::AllocSize => {
-- 
2.43.0


From 377ca192a109b9534501a582504cf51760082f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 28/40] fix: don't swap the minimum and maximum of vscale_range

---
 llvm-mapper/src/block/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index beac8b2..b7d5d2f 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -331,7 +331,7 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                     max => max,
                 };
 
-                IntAttribute::VScaleRange(max, min)
+                IntAttribute::VScaleRange(min, max)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From 9f732a65c6cb2abd98a7dc924084218466428592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 29/40] fix: keep an unbounded vscale_range maximum as zero

---
 llvm-mapper/src/block/attributes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index b7d5d2f..cbaeeae 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -326,10 +326,10 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
             }
             AttributeId::VScaleRange => {
                 let min = (value >> 32) as u32;
-                let max = match value as u32 {
-                    0 => min,
-                    max => max,
-                };
+                // NOTE: A maximum of zero means that there's no upper bound, not that
+                // the maximum was omitted: the latter is encoded as a maximum equal to
+                // the minimum.
+                let max = value as u32;
 
                 IntAttribute::VScaleRange(min, max)
             }
-- 
2.43.0


From b0ca074864c8eb8f827f719135f9ef249e613970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 30/40] fix: accept the nosanitize_bounds attribute

---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index cbaeeae..38fbf42 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -212,6 +212,8 @@ pub enum EnumAttribute {
     ElementType = AttributeId::ElementType as u64,
     /// `disable_sanitizer_instrumentation`
     DisableSanitizerInstrumentation = AttributeId::DisableSanitizerInstrumentation as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
     /// ``allocalign`
     AllocAlign = AttributeId::AllocAlign as u64,
     /// `allocptr`
-- 
2.43.0


From 4381d4407c2cac5e0d2780a0c1155492037113eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 31/40] fix: replace the whole pointer alignment spec of an
 address space on update

---
 llvm-support/src/align.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..ac19015 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -722,14 +722,14 @@ impl PointerAlignSpecs {
             // If we have a match, then we need to either insert or update
             // depending on whether our match is the same spec as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
+            // NOTE: Specs are identified by their address space, not by all of their fields.
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
                 true => {
                     // Unwrap safety: `pos` is a valid index returned above.
                     #[allow(clippy::unwrap_used)]
                     let other = self.0.get_mut(pos).unwrap();
 
-                    other.abi_alignment = spec.abi_alignment;
-                    other.preferred_alignment = spec.preferred_alignment;
+                    *other = spec;
                 }
                 false => {
                     self.0.insert(pos + 1, spec);
-- 
2.43.0


From 6fee8821d5c6942953c853bb9d64fcde049bfea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 32/40] fix: check the preferred alignment of parsed pointer
 alignment specs

---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index ac19015..548fd2a 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -644,13 +644,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        Self::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From b9266c4bdcadd10e7d71abdb4998f0046730bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 33/40] fix: don't split alignment specs in the middle of a
 character

---
 llvm-support/src/align.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 548fd2a..c6dfb10 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -341,7 +341,7 @@ impl FromStr for TypeAlignSpec {
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
-        let body = &value[1..];
+        let body = &value[id.len_utf8()..];
         let parts: Vec<&str> = body.split(':').collect();
 
         match id {
@@ -611,7 +611,10 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
-        let parts: Vec<&str> = value[1..].split(':').collect();
+        let body = value.strip_prefix('p').ok_or_else(|| {
+            AlignSpecError::Parse("pointer align spec doesn't begin with 'p'".into())
+        })?;
+        let parts: Vec<&str> = body.split(':').collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
         // `pref` and `idx` being optional.
-- 
2.43.0


From bc2c9c0f3b77341d7573c4aacae0084baa810540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 34/40] fix: select binary operations by the actual class of
 their type

---
 llvm-support/src/opcode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 694f31d..1d09f9d 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -155,7 +155,7 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
         let is_fp = ty.is_floating_or_floating_vector();
 
         // Binary operations are only valid on integer/fp types or vectors thereof.
-        if !is_fp || !ty.is_integer_or_integer_vector() {
+        if !is_fp && !ty.is_integer_or_integer_vector() {
             return Err(BinaryOpError::InvalidType(ty.clone()));
         }
 
@@ -177,13 +177,13 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
             (BinaryOpcode::SRem, false) => BinaryOp::SRem,
             (BinaryOpcode::SRem, true) => BinaryOp::FRem,
             // The rest are all integer-type only.
-            (BinaryOpcode::Shl, true) => BinaryOp::Shl,
-            (BinaryOpcode::LShr, true) => BinaryOp::LShr,
-            (BinaryOpcode::AShr, true) => BinaryOp::AShr,
-            (BinaryOpcode::And, true) => BinaryOp::And,
-            (BinaryOpcode::Or, true) => BinaryOp::Or,
-            (BinaryOpcode::Xor, true) => BinaryOp::Xor,
-            (_, false) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
+            (BinaryOpcode::Shl, false) => BinaryOp::Shl,
+            (BinaryOpcode::LShr, false) => BinaryOp::LShr,
+            (BinaryOpcode::AShr, false) => BinaryOp::AShr,
+            (BinaryOpcode::And, false) => BinaryOp::And,
+            (BinaryOpcode::Or, false) => BinaryOp::Or,
+            (BinaryOpcode::Xor, false) => BinaryOp::Xor,
+            (_, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
         })
     }
 }
-- 
2.43.0


From eed83b540aaf7fd02ecd0bb3e5a2034013243243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 35/40] fix: allow opaque pointers as vector elements, like
 other pointers

---
 llvm-support/src/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..a5c2bec 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,11 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating()
+            || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From 59572989bda050a439a6602ce49b4496377ca21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 36/40] fix: report function blocks as unsupported instead of
 panicking

---
 llvm-mapper/src/block/function/mod.rs | 97 ++++++++++++++-------------
 1 file changed, 51 insertions(+), 46 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..e798361 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -51,6 +51,11 @@ pub struct Function {
     pub blocks: Vec<BasicBlock>,
 }
 
+/// Returns the error for a function record that we recognize, but don't support yet.
+fn unsupported(code: FunctionCode) -> FunctionError {
+    MapError::Unsupported(format!("{code:?} function records; please implement!")).into()
+}
+
 impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
     type Error = FunctionError;
 
@@ -58,7 +63,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
         // TODO: Handle each `MODULE_CODE_FUNCTION`'s sub-blocks.
 
         // A function block should have exactly one DECLAREBLOCKS record.
-        let nblocks = {
+        let _nblocks = {
             let declareblocks = block
                 .records
                 .exactly_one(FunctionCode::DeclareBlocks)
@@ -72,7 +77,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
 
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        let mut _bbs: Vec<BasicBlock> = Vec::new();
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
@@ -116,11 +121,11 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => return Err(unsupported(code)),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => return Err(unsupported(code)),
+                FunctionCode::DebugLocAgain => return Err(unsupported(code)),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -133,18 +138,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => return Err(unsupported(code)),
+                FunctionCode::InstSelect => return Err(unsupported(code)),
+                FunctionCode::InstExtractelt => return Err(unsupported(code)),
+                FunctionCode::InstInsertelt => return Err(unsupported(code)),
+                FunctionCode::InstShufflevec => return Err(unsupported(code)),
+                FunctionCode::InstCmp => return Err(unsupported(code)),
+                FunctionCode::InstRet => return Err(unsupported(code)),
+                FunctionCode::InstBr => return Err(unsupported(code)),
+                FunctionCode::InstSwitch => return Err(unsupported(code)),
+                FunctionCode::InstInvoke => return Err(unsupported(code)),
+                FunctionCode::InstUnreachable => return Err(unsupported(code)),
+                FunctionCode::InstPhi => return Err(unsupported(code)),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -153,49 +158,49 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => return Err(unsupported(code)),
+                FunctionCode::InstStoreOld => return Err(unsupported(code)),
+                FunctionCode::InstExtractval => return Err(unsupported(code)),
+                FunctionCode::InstInsertval => return Err(unsupported(code)),
+                FunctionCode::InstCmp2 => return Err(unsupported(code)),
+                FunctionCode::InstVselect => return Err(unsupported(code)),
+                FunctionCode::InstInboundsGepOld => return Err(unsupported(code)),
+                FunctionCode::InstIndirectbr => return Err(unsupported(code)),
+                FunctionCode::InstCall => return Err(unsupported(code)),
+                FunctionCode::InstFence => return Err(unsupported(code)),
+                FunctionCode::InstCmpxchgOld => return Err(unsupported(code)),
+                FunctionCode::InstAtomicrmwOld => return Err(unsupported(code)),
+                FunctionCode::InstResume => return Err(unsupported(code)),
+                FunctionCode::InstLandingpadOld => return Err(unsupported(code)),
+                FunctionCode::InstLoadatomic => return Err(unsupported(code)),
+                FunctionCode::InstStoreatomicOld => return Err(unsupported(code)),
+                FunctionCode::InstGep => return Err(unsupported(code)),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => return Err(unsupported(code)),
+                FunctionCode::InstCmpxchg => return Err(unsupported(code)),
+                FunctionCode::InstLandingpad => return Err(unsupported(code)),
+                FunctionCode::InstCleanupret => return Err(unsupported(code)),
+                FunctionCode::InstCatchret => return Err(unsupported(code)),
+                FunctionCode::InstCatchpad => return Err(unsupported(code)),
+                FunctionCode::InstCleanuppad => return Err(unsupported(code)),
+                FunctionCode::InstCatchswitch => return Err(unsupported(code)),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => return Err(unsupported(code)),
+                FunctionCode::InstFreeze => return Err(unsupported(code)),
+                FunctionCode::InstAtomicrmw => return Err(unsupported(code)),
             }
         }
 
-        unimplemented!()
+        Err(MapError::Unsupported("function bodies; please implement!".into()).into())
     }
 }
-- 
2.43.0


From 7d794e006bbcd3a148b4397d6aa862cceaf84411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 37/40] fix: accept a zero ABI alignment for aggregates in
 datalayouts

---
 llvm-support/src/align.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index c6dfb10..f12f9a7 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -365,10 +365,15 @@ impl FromStr for TypeAlignSpec {
                         parts.len()
                     )));
                 }
+                // NOTE: Aggregates, and only them, may have an ABI alignment of zero,
+                // meaning that they have no alignment requirement of their own.
                 let abi = parts[0]
                     .parse::<u64>()
                     .map_err(|e| AlignSpecError::Parse(e.to_string()))
-                    .and_then(|a| Align::from_bit_align(a).map_err(Into::into))?;
+                    .and_then(|a| match a {
+                        0 => Ok(Align::ALIGN8),
+                        a => Align::from_bit_align(a).map_err(Into::into),
+                    })?;
 
                 let pref = parts
                     .get(1)
-- 
2.43.0


From 7fc482d4ae58b01af7685d2e66ec1981e0c5901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 38/40] verif hook: observe the mapping state under --cfg
 mollusc_verif

---
 llvm-mapper/src/block/module.rs |  6 ++++++
 llvm-mapper/src/lib.rs          |  4 ++++
 llvm-mapper/src/unroll.rs       |  3 +++
 llvm-mapper/src/verif.rs        | 21 +++++++++++++++++++++
 4 files changed, 34 insertions(+)
 create mode 100644 llvm-mapper/src/verif.rs

diff --git a/llvm-mapper/src/block/module.rs b/llvm-mapper/src/block/module.rs
index 40dfd8f..c9cc36e 100644
--- a/llvm-mapper/src/block/module.rs
+++ b/llvm-mapper/src/block/module.rs
@@ -166,6 +166,8 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
 
         // After this point, `ctx` refers to a fully reified `MapCtx`.
         let ctx = ctx.reify().map_err(MapError::Context)?;
+        #[cfg(mollusc_verif)]
+        crate::verif::observe("ctx", &ctx);
 
         // Each module *should* have a target triple, but doesn't necessarily.
         let triple = match block
@@ -206,6 +208,8 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
             .by_code(ModuleCode::Function)
             .map(|rec| FunctionRecord::try_map(rec, &ctx))
             .collect::<Result<Vec<_>, _>>()?;
+        #[cfg(mollusc_verif)]
+        crate::verif::observe("functions", &function_records);
 
         let _function_blocks = block
             .blocks
@@ -223,6 +227,8 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
             .collect::<Result<Vec<_>, _>>()?;
 
         log::debug!("aliases: {:?}", aliases);
+        #[cfg(mollusc_verif)]
+        crate::verif::observe("aliases", &aliases);
 
         Ok(Self {
             triple,
diff --git a/llvm-mapper/src/lib.rs b/llvm-mapper/src/lib.rs
index 32ce9e2..6ad0a7f 100644
--- a/llvm-mapper/src/lib.rs
+++ b/llvm-mapper/src/lib.rs
@@ -4,6 +4,8 @@
 #![deny(rustdoc::broken_intra_doc_links)]
 #![deny(missing_docs)]
 #![allow(clippy::redundant_field_names)]
+// `mollusc_verif` is only ever set with RUSTFLAGS.
+#![allow(unexpected_cfgs)]
 #![forbid(unsafe_code)]
 
 pub mod block;
@@ -11,5 +13,7 @@ pub mod error;
 pub mod map;
 pub mod record;
 pub mod unroll;
+#[cfg(mollusc_verif)]
+pub mod verif;
 
 pub use unroll::Bitcode;
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 65c8c3a..0e9deb9 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -452,6 +452,9 @@ impl PartialBitcodeModule {
     /// Returns an error if the `PartialBitcodeModule` is lacking necessary state, or if
     /// block and record mapping fails for any reason.
     pub(self) fn reify(self) -> Result<BitcodeModule, Error> {
+        #[cfg(mollusc_verif)]
+        crate::verif::observe("module", &self);
+
         let mut ctx = PartialMapCtx::default();
 
         // Grab the string table early, so that we can move it into our mapping context and
diff --git a/llvm-mapper/src/verif.rs b/llvm-mapper/src/verif.rs
new file mode 100644
index 0000000..d62ecc5
--- /dev/null
+++ b/llvm-mapper/src/verif.rs
@@ -0,0 +1,21 @@
+//! Observation points for the verification harness.
+//!
+//! This module only exists when building with `--cfg mollusc_verif`. It lets a harness
+//! see the mapping state that isn't (yet) reachable through the public models.
+
+use std::cell::RefCell;
+use std::fmt::Debug;
+
+thread_local! {
+    static OBSERVED: RefCell<Vec<(&'static str, String)>> = RefCell::new(Vec::new());
+}
+
+/// Record an observation of the given kind.
+pub(crate) fn observe(kind: &'static str, value: &dyn Debug) {
+    OBSERVED.with(|o| o.borrow_mut().push((kind, format!("{:?}", value))));
+}
+
+/// Take all of this thread's observations so far, in order.
+pub fn take() -> Vec<(&'static str, String)> {
+    OBSERVED.with(|o| std::mem::take(&mut *o.borrow_mut()))
+}
-- 
2.43.0


From 4ef93504187315d6fd05c494f94f24270045f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 39/40] fix: reject vector types without elements, like LLVM
 does

---
 llvm-support/src/ty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index a5c2bec..6ecd4d9 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -459,6 +459,9 @@ impl ArrayType {
 /// Errors that can occur when constructing a [`VectorType`](VectorType).
 #[derive(Debug, Error)]
 pub enum VectorTypeError {
+    /// The requested number of elements is invalid.
+    #[error("vectors must have at least one element")]
+    NoElements,
     /// The requested element type is invalid.
     #[error("invalid vector element type: {0:?}")]
     BadElement(Type),
@@ -478,7 +481,9 @@ pub struct VectorType {
 impl VectorType {
     /// Create a new `VectorType`.
     pub fn new(num_elements: u64, element_type: Type) -> Result<Self, VectorTypeError> {
-        if element_type.is_vector_element() {
+        if num_elements == 0 {
+            Err(VectorTypeError::NoElements)
+        } else if element_type.is_vector_element() {
             Ok(Self {
                 num_elements,
                 element_type: Box::new(element_type),
-- 
2.43.0


From 9466b3779d7bd5b9923ed9533a811dbbbba21409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 40/40] verif hook: only observe when asked to

---
 llvm-mapper/src/verif.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/verif.rs b/llvm-mapper/src/verif.rs
index d62ecc5..b7597e9 100644
--- a/llvm-mapper/src/verif.rs
+++ b/llvm-mapper/src/verif.rs
@@ -7,15 +7,24 @@ use std::cell::RefCell;
 use std::fmt::Debug;
 
 thread_local! {
-    static OBSERVED: RefCell<Vec<(&'static str, String)>> = RefCell::new(Vec::new());
+    static OBSERVED: RefCell<Option<Vec<(&'static str, String)>>> = RefCell::new(None);
 }
 
 /// Record an observation of the given kind.
 pub(crate) fn observe(kind: &'static str, value: &dyn Debug) {
-    OBSERVED.with(|o| o.borrow_mut().push((kind, format!("{:?}", value))));
+    OBSERVED.with(|o| {
+        if let Some(seen) = o.borrow_mut().as_mut() {
+            seen.push((kind, format!("{:?}", value)));
+        }
+    });
 }
 
-/// Take all of this thread's observations so far, in order.
+/// Start observing on this thread.
+pub fn start() {
+    OBSERVED.with(|o| *o.borrow_mut() = Some(Vec::new()));
+}
+
+/// Stop observing, and take all of this thread's observations since the start, in order.
 pub fn take() -> Vec<(&'static str, String)> {
-    OBSERVED.with(|o| std::mem::take(&mut *o.borrow_mut()))
+    OBSERVED.with(|o| o.borrow_mut().take().unwrap_or_default())
 }
-- 
2.43.0

