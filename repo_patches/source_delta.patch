From a183da34f90eca4cb439a29390339db49b4b72d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:16 +0000
Subject: [PATCH 01/33] fix: reject oversized lengths in DnsBuffer without
 overflowing the cursor arithmetic

---
 src/buffer.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..ce338ab 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -17,13 +17,12 @@ impl<'a> DnsBuffer<'a> {
     /// Create a new `DnsBuffer` with the same internal byte array as the backing storage
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
-    pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+    pub fn sub_buffer(&mut self, len: usize) -> Result<DnsBuffer, DnsError> {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(Self {
-            data: &self.data[0..len],
+            data: &self.data[0..self.pos + len],
             pos: self.pos,
         })
     }
@@ -49,19 +48,18 @@ impl<'a> DnsBuffer<'a> {
     }
 
     /// Advances the current index by `len` bytes.
-    pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+    pub fn advance(&mut self, len: usize) -> Result<(), DnsError> {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
-        self.pos = len;
+        self.pos += len;
         Ok(())
     }
 
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -70,7 +68,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From 346049bbaafd407dfc1004a6f4902f1e226bb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:12 +0000
Subject: [PATCH 02/33] fix: bound every access in extract_fqdn and reject
 compression pointer loops

---
 src/buffer.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index ce338ab..498ec17 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -134,24 +134,28 @@ impl<'a> DnsBuffer<'a> {
 
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
+        // Compression pointers may only point to a prior occurrence of a name. Every pointer has to
+        // target a position before the start of the labels that are currently read.
+        let mut label_start = self.pos;
         loop {
-            let len = self.data[self.pos];
+            let len = self.peek_bytes(1)?[0];
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
                 // and reolve the fqdn here
+                let target = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
+                    & !COMPRESSION_MASK_U16) as usize;
+
+                if target >= label_start {
+                    return Err(DnsError::UnresolveableCompressionPointer);
+                }
 
                 if org_pos.is_none() {
                     org_pos = Some(self.pos + 1);
                 }
 
-                self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
-                    & !COMPRESSION_MASK_U16) as usize;
-
-                if self.pos >= org_pos.unwrap_or(0) {
-                    self.pos = org_pos.unwrap_or(0);
-                    return Err(DnsError::UnresolveableCompressionPointer);
-                }
-            } else if self.pos + len as usize > self.data.len() {
+                self.pos = target;
+                label_start = target;
+            } else if len as usize >= self.remaining() {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
             } else if len == 0 {
-- 
2.43.0


From 33ab7aba90f094ffea43d198c40d582132c05d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:58 +0000
Subject: [PATCH 03/33] fix: confine SVCB parameter values to their announced
 length

---
 src/rdata/svcb.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..987947d 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,38 +199,43 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+
+        // The value must not be read beyond its announced length
+        let mut value = buffer.sub_buffer(len)?;
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
-                    keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
+                while value.remaining() > 0 {
+                    keys.insert(value.extract_u16()?.try_into()?);
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
-                    let inner_len = buffer.extract_u8()? as usize;
-                    alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
+                while value.remaining() > 0 {
+                    let inner_len = value.extract_u8()? as usize;
+                    alpn.push(value.extract_bytes(inner_len)?.to_vec());
                 }
                 Self::Alpn(alpn)
             }
             ParamKey::NoDefaultAlpn => Self::NoDefaultAlpn,
-            ParamKey::Port => Self::Port(buffer.extract_u16()?),
-            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(buffer.extract_u32()?)),
-            ParamKey::Ech => Self::Ech(buffer.extract_bytes(len)?.to_vec()),
+            ParamKey::Port => Self::Port(value.extract_u16()?),
+            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(value.extract_u32()?)),
+            ParamKey::Ech => Self::Ech(value.extract_bytes(len)?.to_vec()),
             ParamKey::IpV6Hint => Self::IpV6Hint(Ipv6Addr::from(u128::from_be_bytes(
-                buffer.extract_bytes(16)?.try_into()?,
+                value.extract_bytes(16)?.try_into()?,
             ))),
             ParamKey::Private(val) => Self::Private {
                 num: val,
-                bytes: buffer.extract_bytes(len)?.to_vec(),
+                bytes: value.extract_bytes(len)?.to_vec(),
             },
             ParamKey::Invalid => Self::Invalid,
         };
+
+        // Continue with the next parameter right behind the announced value
+        buffer.advance(len)?;
+
         Ok(val)
     }
 }
-- 
2.43.0


From 6bef8f96cd8ba5b19604038ba041a2925b158938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 04/33] fix: reject type bitmap windows with more than 32
 octets

---
 src/rdata/csync.rs  | 5 +++++
 src/rdata/dnssec.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..27719ea 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -86,6 +86,11 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
 
+            // A window covers 256 types and its bitmap can not be longer than 32 octets
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
+
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
             let bitmap = buffer.extract_bytes(window_len as usize)?;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..e787851 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -63,6 +63,11 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
 
+            // A window covers 256 types and its bitmap can not be longer than 32 octets
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
+
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
             let bitmap = buffer.extract_bytes(window_len as usize)?;
-- 
2.43.0


From 9f80737ffa9215c66a54a533e398c91a4d88a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 05/33] fix: use all seven bits of the APL AFDLENGTH field

---
 src/rdata/apl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..48f62b9 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,7 +52,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
             1 => {
-- 
2.43.0


From 2187021beac2cf112d7bc760d92ae5f3f63b4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:13 +0000
Subject: [PATCH 06/33] fix: reject unknown response codes when parsing a
 header

---
 src/header.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..5e0408f 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -203,9 +203,15 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Header {
     type Error = DnsError;
 
     fn try_from(buffer: &mut DnsBuffer) -> Result<Self, Self::Error> {
+        let id = buffer.extract_u16()?;
+        let flags = FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?);
+
+        // Reject unknown response codes here because `response_code` relies on a known value
+        ResponseCode::try_from(flags.rcode())?;
+
         Ok(Header {
-            id: buffer.extract_u16()?,
-            flags: FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?),
+            id,
+            flags,
             ques_count: buffer.extract_u16()?,
             ans_count: buffer.extract_u16()?,
             auth_count: buffer.extract_u16()?,
-- 
2.43.0


From 6f2118581076175a0c0d960ef888a9d9185b811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 07/33] fix: do not assume valid utf8 labels when displaying a
 FQDN

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..397d9ae 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -87,8 +87,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels parsed from the wire may contain arbitrary bytes
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From d43ed3d77e0f7f62cf4b33d8466a1b2d0bccdac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:49 +0000
Subject: [PATCH 08/33] fix: report a FQDN without labels as empty

---
 src/fqdn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 397d9ae..5de65ec 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -35,7 +35,7 @@ impl FQDN {
 
     /// Checks if the FQDN does not contain any labels.
     pub fn is_empty(&self) -> bool {
-        self.byte_size() == 0
+        self.data.is_empty()
     }
 
     /// Returns the byte-size of this FQDN in its binary representation.
-- 
2.43.0


From 97180d71e39be0bca0ee36f97d90ac01242de526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:50 +0000
Subject: [PATCH 09/33] fix: skip empty labels in the compressed representation
 of a FQDN

---
 src/fqdn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 5de65ec..e08d657 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -196,6 +196,11 @@ impl CompressedByteConvertible for FQDN {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, mut offset: usize) -> usize {
         let mut size = 0;
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                // An empty label would terminate the name
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -218,6 +223,11 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                // An empty label would terminate the name
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
-- 
2.43.0


From 419335b2815eaf424a2de28fb851e2504992f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:51 +0000
Subject: [PATCH 10/33] fix: only reference names at offsets a compression
 pointer can represent

---
 src/fqdn.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index e08d657..1a30463 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -8,6 +8,9 @@ use crate::error::DnsError;
 use crate::util::hash_fqdn;
 use crate::COMPRESSION_MASK_U16;
 
+/// Largest offset that can be represented by a compression pointer.
+const MAX_POINTER_OFFSET: usize = !COMPRESSION_MASK_U16 as usize;
+
 // struct Label<'a> {
 //     data: &'a [u8],
 // }
@@ -209,7 +212,10 @@ impl CompressedByteConvertible for FQDN {
                 size += 2;
                 return size;
             } else {
-                names.insert(remaining_hash, offset);
+                // Only 14 bits are available to encode the offset in a pointer
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
                 size += self.data[i].len() + 1;
             }
@@ -239,7 +245,10 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                // Only 14 bits are available to encode the offset in a pointer
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From 400618148f80f52ea150d7ebad832ee8da333d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 11/33] fix: count the questions passed to
 Packet::with_questions

---
 src/packet.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..7567edb 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -76,13 +76,9 @@ impl Packet {
     /// This sets the necessary flags to make it a query dns packet. Other fields remain defaulted.
     /// This should only be used to query information from a name server.
     pub fn with_questions(id: u16, rc: bool, questions: Vec<Question>) -> Self {
-        Packet {
-            header: Header::new_query(id, rc),
-            questions,
-            answers: Vec::new(),
-            authorities: Vec::new(),
-            additional: Vec::new(),
-        }
+        let mut packet = Self::new_query(id, rc);
+        packet.set_questions(questions);
+        packet
     }
 
     pub fn id(&self) -> u16 {
-- 
2.43.0


From 288b17f5a7127fde9bfbba7037c0890a92d920b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:54 +0000
Subject: [PATCH 12/33] fix: reset the authority count when taking the
 authorities

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 7567edb..329a211 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -201,7 +201,7 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
-- 
2.43.0


From 86b571a26484a89f645a702ab1c199a9434c5728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 13/33] fix: do not overflow the header counts when adding to a
 section

---
 src/packet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 329a211..866a4d6 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -169,7 +169,7 @@ impl Packet {
 
     pub fn add_question(&mut self, question: Question) {
         self.questions.push(question);
-        self.header.ques_count += 1;
+        self.header.ques_count = self.questions.len() as u16;
     }
 
     pub fn set_questions(&mut self, questions: Vec<Question>) {
@@ -188,7 +188,7 @@ impl Packet {
 
     pub fn add_answer(&mut self, answer: ResourceRecord) {
         self.answers.push(answer);
-        self.header.ans_count += 1;
+        self.header.ans_count = self.answers.len() as u16;
     }
 
     pub fn set_answers(&mut self, answers: Vec<ResourceRecord>) {
@@ -207,7 +207,7 @@ impl Packet {
 
     pub fn add_authority(&mut self, auth: ResourceRecord) {
         self.authorities.push(auth);
-        self.header.auth_count += 1;
+        self.header.auth_count = self.authorities.len() as u16;
     }
 
     pub fn set_authorities(&mut self, authorities: Vec<ResourceRecord>) {
@@ -226,7 +226,7 @@ impl Packet {
 
     pub fn add_additional(&mut self, add: ResourceRecord) {
         self.additional.push(add);
-        self.header.add_count += 1;
+        self.header.add_count = self.additional.len() as u16;
     }
 
     pub fn set_additionals(&mut self, additionals: Vec<ResourceRecord>) {
-- 
2.43.0


From 79b1828b70f1f520800bb1d82a94b70c49bfb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 14/33] fix: write the actual section counts in both packet
 representations

---
 src/packet.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 866a4d6..e35a0c6 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -238,7 +238,7 @@ impl Packet {
     pub fn to_bytes_compressed(&self) -> Vec<u8> {
         let mut used_fqdn = std::collections::HashMap::<u64, usize>::new();
 
-        let mut bin = self.header.to_bytes();
+        let mut bin = self.counted_header().to_bytes();
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
@@ -255,6 +255,16 @@ impl Packet {
 
         bin
     }
+
+    /// Returns the header with the counts matching the number of elements in the sections.
+    fn counted_header(&self) -> Header {
+        let mut header = self.header.clone();
+        header.ques_count = self.questions.len() as u16;
+        header.ans_count = self.answers.len() as u16;
+        header.auth_count = self.authorities.len() as u16;
+        header.add_count = self.additional.len() as u16;
+        header
+    }
 }
 
 impl ByteConvertible for Packet {
@@ -291,22 +301,7 @@ impl ByteConvertible for Packet {
         }
 
         let mut bin = Vec::with_capacity(byte_len);
-        bin.extend_from_slice(&self.header.to_bytes());
-
-        // Set correct number of element into the header
-        let mut ptr = bin.as_mut_ptr() as *mut u16;
-        // SAFETY: Safe to dereference the pointer because the vector the pointer points to
-        // was created with the expected capacity of the header struct beforehand
-        unsafe {
-            ptr = ptr.offset(2);
-            *ptr = (self.questions.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.answers.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.authorities.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.additional.len() as u16).to_be();
-        };
+        bin.extend_from_slice(&self.counted_header().to_bytes());
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes());
-- 
2.43.0


From ffd29ffaf8359d2d24609aa579373fcf573d47e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 15/33] fix: include the tag in the byte size of CAA records

---
 src/rdata/caa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 79a13f0..108ea95 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -68,7 +68,7 @@ impl RData for Caa {
 
 impl ByteConvertible for Caa {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.value.len()
+        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 5fa3ccc8b0b0c668fbcd8605538a2cc1932045a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:00 +0000
Subject: [PATCH 16/33] fix: include code and length of every option in the
 byte size of OPT records

---
 src/rdata/opt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..1e89cff 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -53,7 +53,9 @@ impl RData for Opt {
 
 impl ByteConvertible for Opt {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.0.iter().fold(0, |acc, elem| acc + elem.1.len())
+        self.0.iter().fold(0, |acc, elem| {
+            acc + (2 * std::mem::size_of::<u16>()) + elem.1.len()
+        })
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From ec75ae63e07c56567104b0f0659367713b39f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:01 +0000
Subject: [PATCH 17/33] fix: serialize the options of OPT records in a stable
 order

---
 src/rdata/opt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index 1e89cff..d0f9afd 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -60,7 +60,10 @@ impl ByteConvertible for Opt {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buff = Vec::with_capacity(self.byte_size());
-        for (code, data) in self.0.iter() {
+        // The iteration order of the map is not stable
+        let mut options = self.0.iter().collect::<Vec<_>>();
+        options.sort_by_key(|(code, _)| **code);
+        for (code, data) in options {
             buff.extend_from_slice(&u16::to_be_bytes(*code));
             buff.extend_from_slice(&u16::to_be_bytes(data.len() as u16));
             buff.extend_from_slice(data);
-- 
2.43.0


From 7bf00d302a9716356dd6747f8858e95aa8577653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:02 +0000
Subject: [PATCH 18/33] fix: count all fixed fields in the byte size of RRSIG
 records

---
 src/rdata/dnssec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index e787851..20ddad8 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -712,7 +712,7 @@ impl RData for Rrsig {
 impl ByteConvertible for Rrsig {
     #[inline(always)]
     fn byte_size(&self) -> usize {
-        17 + self.signers_name.len() + self.signature.len()
+        18 + self.signers_name.len() + self.signature.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 5ce8a543f7a862dcade3bff57faf950364bcb23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:04 +0000
Subject: [PATCH 19/33] fix: derive the RDATA length from the serialized data

---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..a51f2de 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -444,9 +444,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From f6ad8426bdcc452cda7e00180eb4941e9fa6afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:06 +0000
Subject: [PATCH 20/33] fix: advance the offset in byte_size_compressed like in
 to_bytes_compressed

---
 src/rdata/minfo.rs | 4 ++--
 src/rdata/mx.rs    | 2 +-
 src/rdata/soa.rs   | 5 +++--
 src/resource.rs    | 6 +++---
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/rdata/minfo.rs b/src/rdata/minfo.rs
index 587a9a1..bac595d 100644
--- a/src/rdata/minfo.rs
+++ b/src/rdata/minfo.rs
@@ -72,8 +72,8 @@ impl ByteConvertible for Minfo {
 
 impl CompressedByteConvertible for Minfo {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, offset: usize) -> usize {
-        self.rmailbx.byte_size_compressed(names, offset)
-            + self.emailbx.byte_size_compressed(names, offset)
+        let rmailbx_size = self.rmailbx.byte_size_compressed(names, offset);
+        rmailbx_size + self.emailbx.byte_size_compressed(names, offset + rmailbx_size)
     }
 
     fn to_bytes_compressed(&self, names: &mut HashMap<u64, usize>, offset: usize) -> Vec<u8> {
diff --git a/src/rdata/mx.rs b/src/rdata/mx.rs
index 33cfa8b..2dd2772 100644
--- a/src/rdata/mx.rs
+++ b/src/rdata/mx.rs
@@ -67,7 +67,7 @@ impl ByteConvertible for Mx {
 
 impl CompressedByteConvertible for Mx {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, offset: usize) -> usize {
-        std::mem::size_of::<u16>() + self.exchange.byte_size_compressed(names, offset)
+        std::mem::size_of::<u16>() + self.exchange.byte_size_compressed(names, offset + 2)
     }
 
     fn to_bytes_compressed(&self, names: &mut HashMap<u64, usize>, offset: usize) -> Vec<u8> {
diff --git a/src/rdata/soa.rs b/src/rdata/soa.rs
index b95cdff..d68f2b3 100644
--- a/src/rdata/soa.rs
+++ b/src/rdata/soa.rs
@@ -112,8 +112,9 @@ impl ByteConvertible for Soa {
 
 impl CompressedByteConvertible for Soa {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, offset: usize) -> usize {
-        self.mname.byte_size_compressed(names, offset)
-            + self.rname.byte_size_compressed(names, offset)
+        let mname_size = self.mname.byte_size_compressed(names, offset);
+        mname_size
+            + self.rname.byte_size_compressed(names, offset + mname_size)
             + (std::mem::size_of::<u32>() * 5)
     }
 
diff --git a/src/resource.rs b/src/resource.rs
index a51f2de..8b7df9d 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -455,12 +455,12 @@ impl ByteConvertible for ResourceRecord {
 
 impl CompressedByteConvertible for ResourceRecord {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, offset: usize) -> usize {
-        self.a_name.byte_size_compressed(names, offset)
+        let size = self.a_name.byte_size_compressed(names, offset)
             + size_of::<u16>()
             + size_of::<u16>()
             + size_of::<u32>()
-            + size_of::<u16>()
-            + self.rdata.byte_size_compressed(names, offset)
+            + size_of::<u16>();
+        size + self.rdata.byte_size_compressed(names, offset + size)
     }
 
     fn to_bytes_compressed(&self, names: &mut HashMap<u64, usize>, offset: usize) -> Vec<u8> {
-- 
2.43.0


From 48045d95dee0584c2feabfe054daf87b119a5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:07 +0000
Subject: [PATCH 21/33] fix: parse the SSHFP fingerprint as the remaining bytes
 of the record

---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From 11fabbb56a315f533cc1783fbed79ac555d8b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:09 +0000
Subject: [PATCH 22/33] fix: recognize the CDS and CDNSKEY type codes

---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index 8b7df9d..89a3c09 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From dd388c778b43ea759649fabcdf392ff2b0b0dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:10 +0000
Subject: [PATCH 23/33] fix: report invalid TLSA selectors and matching types
 with their own errors

---
 src/rdata/tlsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/tlsa.rs b/src/rdata/tlsa.rs
index 8093f05..ec0ea5a 100644
--- a/src/rdata/tlsa.rs
+++ b/src/rdata/tlsa.rs
@@ -138,7 +138,7 @@ impl TryFrom<u8> for Selector {
         match value {
             0 => Ok(Self::Full),
             1 => Ok(Self::SubjectPublicKeyInfo),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSASelector(value)),
         }
     }
 }
@@ -167,7 +167,7 @@ impl TryFrom<u8> for MatchingType {
             0 => Ok(Self::ExactMatch),
             1 => Ok(Self::SHA256),
             2 => Ok(Self::SHA512),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSAMatchingType(value)),
         }
     }
 }
-- 
2.43.0


From 671c168f0b3ed396118f755bf91de70800702fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:12 +0000
Subject: [PATCH 24/33] fix: do not print to stdout when serializing TSIG
 records

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From 40b18c1ac2f9d16ff3fa34bdddf0da93f1b20836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 25/33] fix: report RSA signing errors instead of panicking

---
 src/rdata/dnssec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 20ddad8..d0ac6c4 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -828,28 +828,28 @@ impl Algorithm {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA256,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::RSA_SHA512 => {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA512,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::ECDSA_P256 => {
-- 
2.43.0


From b427dc32cca7227ff16eecb970d3301dc26cf968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:32 +0000
Subject: [PATCH 26/33] fix: verify RSA/SHA-256 and RSA/SHA-512 signatures with
 the padding used for signing

---
 src/rdata/dnssec.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index d0ac6c4..6933be8 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -588,13 +588,14 @@ impl Rrsig {
                 let verifier = rsa::RsaPublicKey::new(modulus, exponent)
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier
-                    .verify(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        &sig,
-                        &self.signature,
-                    )
-                    .is_ok())
+                // The padding scheme has to match the one used to create the signature
+                let scheme = match self.algorithm {
+                    Algorithm::RSA_SHA256 => rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha256>(),
+                    Algorithm::RSA_SHA512 => rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha512>(),
+                    _ => rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+                };
+
+                Ok(verifier.verify(scheme, &sig, &self.signature).is_ok())
             }
             Algorithm::DSA_SHA1 => {
                 use dsa::signature::Verifier;
-- 
2.43.0


From 701ee236028183730febf9fdc2d2acea280e4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:33 +0000
Subject: [PATCH 27/33] fix: store RRSIG timestamps in seconds

---
 src/rdata/dnssec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 6933be8..5dfd333 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -476,11 +476,11 @@ impl Rrsig {
         let expiration = expiration
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
         let inception = inception
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
 
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
-- 
2.43.0


From 517d2a91e143077b0196fb3457b4a9b675631c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:34 +0000
Subject: [PATCH 28/33] fix: report unsupported DNSSEC algorithms with their
 code

---
 src/rdata/dnssec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 5dfd333..a49d64b 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -891,9 +891,9 @@ impl Algorithm {
                 let signature = ed448_key.sign_raw(data);
                 Ok(signature.to_vec())
             }
-            Self::Indirect => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
-            Self::PrivateDns => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
-            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
+            Self::Indirect => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
+            Self::PrivateDns => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
+            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
         }
     }
 }
-- 
2.43.0


From 24303eec54f275780728ace24bdad32644d54084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 29/33] fix: create DSA signatures in the representation that
 is verified

---
 src/rdata/dnssec.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index a49d64b..4c7afa2 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -598,7 +598,7 @@ impl Rrsig {
                 Ok(verifier.verify(scheme, &sig, &self.signature).is_ok())
             }
             Algorithm::DSA_SHA1 => {
-                use dsa::signature::Verifier;
+                use dsa::signature::hazmat::PrehashVerifier;
 
                 // Key data field:
                 // T         1  octet
@@ -622,7 +622,7 @@ impl Rrsig {
                 let signature = dsa::Signature::try_from(self.signature.as_slice())
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier.verify(&sig, &signature).is_ok())
+                Ok(verifier.verify_prehash(&sig, &signature).is_ok())
             }
             Algorithm::ECDSA_P256 => {
                 // Key data field:
@@ -791,7 +791,7 @@ impl Algorithm {
             Self::DSA_SHA1 => {
                 use dsa::{pkcs8::DecodePrivateKey, SigningKey};
                 use sha1::{Digest, Sha1};
-                use signature::DigestSigner;
+                use signature::{DigestSigner, SignatureEncoding};
 
                 let mut hasher = Sha1::new();
                 hasher.update(data);
@@ -800,10 +800,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let signature = signing_key.sign_digest(hasher);
 
-                let mut sign_data = signature.r().to_bytes_be();
-                sign_data.extend_from_slice(&signature.s().to_bytes_be());
-
-                Ok(sign_data)
+                Ok(signature.to_vec())
             }
             Self::RSA_SHA1 => {
                 use rsa::pkcs8::DecodePrivateKey;
-- 
2.43.0


From 2d79a7d92fdbd8f2430e5d772613711a96b670ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:10 +0000
Subject: [PATCH 30/33] fix: report invalid NAPTR flags instead of dropping
 them

---
 src/rdata/naptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/naptr.rs b/src/rdata/naptr.rs
index 72ac6ab..a0ed730 100644
--- a/src/rdata/naptr.rs
+++ b/src/rdata/naptr.rs
@@ -99,8 +99,8 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Naptr {
             flags: buffer
                 .extract_character_string()?
                 .iter()
-                .flat_map(|ch| Flag::try_from(*ch))
-                .collect(),
+                .map(|ch| Flag::try_from(*ch))
+                .collect::<Result<_, _>>()?,
             service: buffer.extract_character_string()?,
             regexp: buffer.extract_string()?,
             replacement: buffer.extract_fqdn()?,
-- 
2.43.0


From c7c1c44fcff58bc6ca6322d0e252fbeecd9ddee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:11 +0000
Subject: [PATCH 31/33] fix: do not report an error as its own source

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index ff3b1e0..b99fbc5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -80,7 +80,10 @@ pub enum DnsError {
 
 impl std::error::Error for DnsError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
-        Some(self)
+        match self {
+            Self::InvalidDnsSecSignatureTimespan(err) => Some(err),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 5552efe76369667a12f87b2e7f75a68fac25373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 32/33] fix: leave out type bitmap windows without types in
 NSEC and CSYNC

RFC 4034 section 4.1.2: blocks with no types present must not be included.
A set without a type below 256 was written with an empty window 0.
---
 src/rdata/csync.rs  | 18 ++++++++++++------
 src/rdata/dnssec.rs | 36 ++++++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 27719ea..cfef254 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -133,9 +133,12 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    // A window without types is not encoded
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -164,9 +167,12 @@ impl ByteConvertible for Csync {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                if block_data[block_len as usize] != 0 {
+                    // A window without types is not encoded
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 4c7afa2..2eb0df3 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -99,9 +99,12 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    // A window without types is not encoded
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -129,9 +132,12 @@ impl ByteConvertible for Nsec {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                if block_data[block_len as usize] != 0 {
+                    // A window without types is not encoded
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -159,9 +165,12 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    // A window without types is not encoded
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -193,9 +202,12 @@ impl CompressedByteConvertible for Nsec {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                if block_data[block_len as usize] != 0 {
+                    // A window without types is not encoded
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From a1c0f6caf5d4fcf1c35b974f887279c5ffbe9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:54 +0000
Subject: [PATCH 33/33] fix: read and write Ed448 SSHFP keys with their
 assigned algorithm number

---
 src/rdata/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/mod.rs b/src/rdata/mod.rs
index 3c016c7..d8c9ad5 100644
--- a/src/rdata/mod.rs
+++ b/src/rdata/mod.rs
@@ -106,7 +106,7 @@ impl TryFrom<u8> for Algorithm {
             2 => Ok(Self::DSA),
             3 => Ok(Self::ECDSA),
             4 => Ok(Self::Ed25519),
-            5 => Ok(Self::Ed448),
+            6 => Ok(Self::Ed448), // RFC 8709
             _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
         }
     }
@@ -120,7 +120,7 @@ impl From<Algorithm> for u8 {
             Algorithm::DSA => 2,
             Algorithm::ECDSA => 3,
             Algorithm::Ed25519 => 4,
-            Algorithm::Ed448 => 5,
+            Algorithm::Ed448 => 6,
         }
     }
 }
-- 
2.43.0

