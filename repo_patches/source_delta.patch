From 4de8c425449c851edfbf1993f002fb2c5590fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 01/41] fix: reject compound values whose size does not cover
 the count field

---
 codec/src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..832989a 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -594,7 +594,8 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,7 +603,10 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
-- 
2.43.0


From 66187f1bf459c87fc37bb7fcbcb3c218ca5de660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 02/41] fix: bound element counts by the declared size of a
 compound value

---
 codec/src/codec/decode.rs | 47 ++++++++++++++++++++++++++++++++++-----
 codec/src/types/array.rs  |  5 ++++-
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 832989a..509b2ae 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -246,6 +246,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let header = MapHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
+        check_count(header.count, &map_input)?;
         let count = header.count / 2;
         let mut map: collections::HashMap<K, V, S> =
             collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
@@ -263,7 +264,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ArrayHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
-        let elem_ctor = Constructor::decode(input)?;
+        let mut array_input = input.split_to(header.size as usize);
+        let elem_ctor = Constructor::decode(&mut array_input)?;
         let elem_fmt = match elem_ctor {
             Constructor::FormatCode(code) => code,
             Constructor::Described { descriptor, .. } => {
@@ -271,12 +273,12 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
+        check_array_count(header.count, elem_fmt, &array_input)?;
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let decoded = T::decode_with_format(input, elem_fmt)?;
+            let decoded = T::decode_with_format(&mut array_input, elem_fmt)?;
             result.push(decoded);
         }
-        // todo: ensure header.size bytes were read out from input
         Ok(result)
     }
 }
@@ -286,6 +288,7 @@ impl DecodeFormatted for VecSymbolMap {
         let header = MapHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
+        check_count(header.count, &map_input)?;
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
         for _ in 0..count {
@@ -303,6 +306,7 @@ impl DecodeFormatted for VecStringMap {
         let header = MapHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
+        check_count(header.count, &map_input)?;
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
         for _ in 0..count {
@@ -338,9 +342,12 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
+        check_count(header.count, &list_input)?;
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
+            let decoded = Variant::decode(&mut list_input)?;
             result.push(decoded);
         }
         Ok(List(result))
@@ -350,11 +357,14 @@ impl DecodeFormatted for List {
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
+        check_count(header.count, &list_input)?;
 
         let descr = T::descriptor();
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
+            if let Variant::DescribedCompound(decoded) = Variant::decode(&mut list_input)? {
                 if &descr != decoded.descriptor() {
                     return Err(AmqpParseError::UnexpectedType("Unexpected descriptor"));
                 }
@@ -612,6 +622,33 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     Ok((size, count))
 }
 
+/// Every element of a list or a map occupies at least one byte
+fn check_count(count: u32, input: &Bytes) -> Result<(), AmqpParseError> {
+    if count as usize > input.len() {
+        Err(AmqpParseError::InvalidSize)
+    } else {
+        Ok(())
+    }
+}
+
+/// Array elements could be zero sized, limit number of such elements
+pub(crate) fn check_array_count(
+    count: u32,
+    elem_fmt: u8,
+    input: &Bytes,
+) -> Result<(), AmqpParseError> {
+    let max = match elem_fmt {
+        // fixed width formats without data octets
+        0x40..=0x4f => u16::MAX as usize,
+        _ => input.len(),
+    };
+    if count as usize > max {
+        Err(AmqpParseError::InvalidSize)
+    } else {
+        Ok(())
+    }
+}
+
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
     let seconds = millis / 1000;
     if seconds < 0 {
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..808eb07 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -1,5 +1,6 @@
 use ntex_bytes::{BufMut, Bytes, BytesMut};
 
+use crate::codec::decode::check_array_count;
 use crate::codec::{self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode};
 use crate::error::AmqpParseError;
 use crate::types::Constructor;
@@ -39,9 +40,11 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
+        let elem_fmt = self.element_constructor.format_code();
+        check_array_count(self.count, elem_fmt, &buf)?;
         let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
         for _ in 0..self.count {
-            let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
+            let decoded = T::decode_with_format(&mut buf, elem_fmt)?;
             result.push(decoded);
         }
         Ok(result)
-- 
2.43.0


From 03e5e79ca7ff22b5425bcf70b48de8f3589edcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 03/41] fix: use array32 when number of elements does not fit
 array8

---
 codec/src/types/array.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 808eb07..99a5c5f 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -36,6 +36,10 @@ impl Array {
         &self.element_constructor
     }
 
+    fn is_array32(&self, ctor_len: usize) -> bool {
+        self.payload.len() + ctor_len + 1 > u8::MAX as usize || self.count > u32::from(u8::MAX)
+    }
+
     /// Attempts to decode the array into a vector of type `T`. Format code supplied to T::decode_with_format is the format code of the underlying
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
@@ -63,7 +67,7 @@ where
 impl Encode for Array {
     fn encoded_size(&self) -> usize {
         let ctor_len = self.element_constructor.encoded_size();
-        let header_len = if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        let header_len = if self.is_array32(ctor_len) {
             9 // 1 for format code, 4 for size, 4 for count
         } else {
             3 // 1 for format code, 1 for size, 1 for count
@@ -74,7 +78,7 @@ impl Encode for Array {
 
     fn encode(&self, buf: &mut BytesMut) {
         let ctor_len = self.element_constructor.encoded_size();
-        if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        if self.is_array32(ctor_len) {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32((4 + ctor_len + self.payload.len()) as u32); // size. 4 for count
             buf.put_u32(self.count);
-- 
2.43.0


From e5acf92eb4bf9df009a0fdd03bf68d8431f1f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 04/41] fix: implement hash for map values, a map could be used
 as a map key

---
 codec/src/types/variant.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..e0811e3 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -1,3 +1,4 @@
+use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
 
 use chrono::{DateTime, Utc};
@@ -253,8 +254,16 @@ impl VariantMap {
 
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // iteration order is not stable, combine hashes of entries with commutative operation
+        let mut sum = 0u64;
+        for entry in &self.map {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            sum = sum.wrapping_add(hasher.finish());
+        }
+        state.write_usize(self.map.len());
+        state.write_u64(sum);
     }
 }
 
-- 
2.43.0


From b2a531b399d36dbe64bc3b68a52a7c437dd70e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 05/41] fix: decode ulong0 descriptor

---
 codec/src/codec/decode.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 509b2ae..8a4b8fc 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -492,10 +492,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         match fmt {
-            codec::FORMATCODE_SMALLULONG => {
+            codec::FORMATCODE_ULONG_0 | codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG => {
                 u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
             }
-            codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Descriptor::Ulong),
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(Descriptor::Symbol)
             }
-- 
2.43.0


From 5e57cf4582d070ea29c76159d4b304ba4619b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 06/41] fix: decode timestamps before the epoch

---
 codec/src/codec/decode.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8a4b8fc..29d0763 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -649,21 +649,9 @@ pub(crate) fn check_array_count(
 }
 
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds - 1, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    }
+    Utc.timestamp_millis_opt(millis)
+        .single()
+        .ok_or(AmqpParseError::DatetimeParseError)
 }
 
 fn read_fixed_bytes<const N: usize>(input: &mut Bytes) -> Result<[u8; N], AmqpParseError> {
-- 
2.43.0


From 177add3352b1b23c8266e0c2771629b102a770b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 07/41] fix: do not cache encoded size of a message, it goes
 stale after mutation

---
 codec/src/message/message.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..60b9567 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -1,5 +1,3 @@
-use std::cell::Cell;
-
 use ntex_bytes::{Bytes, BytesMut};
 
 use crate::codec::{Decode, Encode};
@@ -23,7 +21,6 @@ pub struct MessageInner {
     pub application_properties: Option<VecStringMap>,
     pub footer: Option<Annotations>,
     pub body: MessageBody,
-    size: Cell<usize>,
 }
 
 impl Message {
@@ -55,7 +52,6 @@ impl Message {
     /// Set message header
     pub fn set_header(&mut self, header: Header) -> &mut Self {
         self.0.header = Some(header);
-        self.0.size.set(0);
         self
     }
 
@@ -79,7 +75,6 @@ impl Message {
             self.0.properties = Some(Properties::default());
         }
 
-        self.0.size.set(0);
         self.0.properties.as_mut().unwrap()
     }
 
@@ -96,7 +91,6 @@ impl Message {
             f(&mut props);
             self.0.properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -138,7 +132,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.application_properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -168,7 +161,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.message_annotations = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -202,7 +194,6 @@ impl Message {
     where
         F: Fn(Self) -> Self,
     {
-        self.0.size.set(0);
         f(self)
     }
 
@@ -213,7 +204,6 @@ impl Message {
         F: Fn(Self, &T) -> Self,
     {
         if let Some(val) = value {
-            self.0.size.set(0);
             f(self, val)
         } else {
             self
@@ -252,7 +242,6 @@ impl Message {
         F: FnOnce(&mut MessageBody),
     {
         f(&mut self.0.body);
-        self.0.size.set(0);
         self
     }
 
@@ -314,11 +303,6 @@ impl Decode for Message {
 
 impl Encode for Message {
     fn encoded_size(&self) -> usize {
-        let size = self.0.size.get();
-        if size != 0 {
-            return size;
-        }
-
         let mut size = self.0.body.encoded_size();
 
         if let Some(ref h) = self.0.header {
@@ -339,7 +323,6 @@ impl Encode for Message {
         if let Some(ref f) = self.0.footer {
             size += f.encoded_size() + SECTION_PREFIX_LENGTH;
         }
-        self.0.size.set(size);
         size
     }
 
-- 
2.43.0


From a3b13901c8afdb10c0f28248da71d4ad2b8ae5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 08/41] fix: limit nesting level of decoded values

---
 codec/src/codec/decode.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 29d0763..03ec8e8 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -1,4 +1,4 @@
-use std::{char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
+use std::{cell::Cell, char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
 
 use byteorder::{BigEndian, ByteOrder};
 use chrono::{DateTime, TimeZone, Utc};
@@ -378,8 +378,40 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     }
 }
 
+/// Max nesting level of a decoded value
+const MAX_DEPTH: usize = 128;
+
+thread_local! {
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Tracks nesting level of a value that is being decoded
+struct Nested;
+
+impl Nested {
+    fn enter() -> Result<Nested, AmqpParseError> {
+        DEPTH.with(|depth| {
+            if depth.get() >= MAX_DEPTH {
+                Err(AmqpParseError::UnexpectedType(
+                    "Value nesting level is too deep",
+                ))
+            } else {
+                depth.set(depth.get() + 1);
+                Ok(Nested)
+            }
+        })
+    }
+}
+
+impl Drop for Nested {
+    fn drop(&mut self) {
+        DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
+        let _nested = Nested::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok(Variant::Null),
             codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
-- 
2.43.0


From bfd9541daa292a108ed30442a758602cf656a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 09/41] fix: settle deliveries by serial number range

---
 src/session.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 099cfbc..6ae44ab 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1110,14 +1110,16 @@ impl SessionInner {
         };
 
         if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
-                    delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
+            // delivery ids are serial numbers, range could wrap around and
+            // size of the range is controlled by the peer
+            let len = to.wrapping_sub(from);
+            if len > i32::MAX as u32 {
+                log::trace!("{}: Invalid disposition range: {disp:?}", self.sink.tag());
+            } else {
+                for (no, delivery) in deliveries.iter_mut() {
+                    if no.wrapping_sub(from) <= len {
+                        delivery.handle_disposition(disp);
+                    }
                 }
             }
         } else if let Some(delivery) = deliveries.get_mut(&from) {
-- 
2.43.0


From acfddf453188e5ba7ddd48623218b1fcdb0173a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:48 +0000
Subject: [PATCH 10/41] fix: remote window must not wrap if flow revokes or
 predates sent transfers

---
 src/session.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 6ae44ab..923c35d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1132,11 +1132,16 @@ impl SessionInner {
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
-        self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+        // number of transfers which remote side has not seen yet,
+        // initial transfer id is used until remote side receives begin frame
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
+        self.remote_incoming_window = if in_flight > i32::MAX as u32 {
+            flow.incoming_window()
+        } else {
+            flow.incoming_window().saturating_sub(in_flight)
+        };
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
-- 
2.43.0


From 5e5350d154b5d2dd0f4d6d25f5e03ab149e4f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 11/41] fix: link credit must not wrap if flow revokes credit
 or predates sent deliveries

---
 src/sndlink.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..b53bc5d 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -23,6 +23,7 @@ pub(crate) struct SenderLinkInner {
     pub(crate) session: Session,
     remote_handle: Handle,
     delivery_count: SequenceNo,
+    initial_delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
     pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
@@ -188,6 +189,7 @@ impl SenderLinkInner {
             id,
             name,
             delivery_count,
+            initial_delivery_count: delivery_count,
             max_message_size,
             session: Session::new(session),
             remote_handle: handle,
@@ -292,11 +294,15 @@ impl SenderLinkInner {
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            // number of deliveries which receiver has not seen yet
+            let in_flight = self
+                .delivery_count
+                .wrapping_sub(flow.delivery_count().unwrap_or(self.initial_delivery_count));
+            let new_credit = if in_flight > i32::MAX as u32 {
+                credit
+            } else {
+                credit.saturating_sub(in_flight)
+            };
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
-- 
2.43.0


From 8fe586d02299b54d1b90e2ca51b3bd3bf9b344ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 12/41] fix: initial delivery count is defined by the sender

---
 src/session.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 923c35d..6a98700 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -8,7 +8,7 @@ use slab::Slab;
 use ntex_amqp_codec::protocol::{
     self as codec, Accepted, Attach, Begin, DeliveryNumber, DeliveryState, Detach, Disposition,
     End, Error, Flow, Frame, Handle, MessageFormat, ReceiverSettleMode, Role, SenderSettleMode,
-    Source, Transfer, TransferBody, TransferNumber,
+    SequenceNo, Source, Transfer, TransferBody, TransferNumber,
 };
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
@@ -239,7 +239,10 @@ impl Session {
 enum SenderLinkState {
     Established(EstablishedSenderLink),
     OpeningRemote,
-    Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
+    Opening(
+        Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
+        SequenceNo,
+    ),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
@@ -256,12 +259,6 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
-impl SenderLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, SenderLinkState::Opening(_))
-    }
-}
-
 impl ReceiverLinkState {
     fn is_opening(&self) -> bool {
         matches!(self, ReceiverLinkState::OpeningLocal(_))
@@ -443,7 +440,10 @@ impl SessionInner {
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
-        entry.insert(Either::Left(SenderLinkState::Opening(Some(tx))));
+        entry.insert(Either::Left(SenderLinkState::Opening(
+            Some(tx),
+            frame.initial_delivery_count().unwrap_or(0),
+        )));
         log::trace!(
             "{}: Local sender link opening: {:?} hnd:{token:?}",
             self.tag(),
@@ -502,7 +502,7 @@ impl SessionInner {
     ) {
         if let Some(Either::Left(link)) = self.links.get_mut(id as usize) {
             match link {
-                SenderLinkState::Opening(_) => {
+                SenderLinkState::Opening(..) => {
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -872,7 +872,9 @@ impl SessionInner {
         if let Some(index) = self.links_by_name.get(name) {
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
-                    if item.is_opening() {
+                    if let SenderLinkState::Opening(_, delivery_count) = item {
+                        // initial delivery count is defined by the sender
+                        let delivery_count = *delivery_count;
                         log::trace!(
                             "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
                             self.sink.tag(),
@@ -881,7 +883,6 @@ impl SessionInner {
                         );
 
                         self.remote_handles.insert(attach.handle(), *index);
-                        let delivery_count = attach.initial_delivery_count().unwrap_or(0);
                         let link = Cell::new(SenderLinkInner::new(
                             *index,
                             name.clone(),
@@ -897,7 +898,7 @@ impl SessionInner {
                             SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
                         );
 
-                        if let SenderLinkState::Opening(Some(tx)) = local_sender {
+                        if let SenderLinkState::Opening(Some(tx), _) = local_sender {
                             let _ = tx.send(Ok(link));
                         }
                     }
@@ -956,7 +957,7 @@ impl SessionInner {
         let remove = if let Some(link) = self.links.get_mut(idx) {
             match link {
                 Either::Left(link) => match link {
-                    SenderLinkState::Opening(tx) => {
+                    SenderLinkState::Opening(tx, _) => {
                         if let Some(tx) = tx.take() {
                             let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
                             let _ = tx.send(Err(err));
-- 
2.43.0


From a1d3991767c679b362ad912b3a4c1450cd40533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 13/41] fix: every transfer frame occupies session window, not
 only first one

---
 src/session.rs | 56 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 6a98700..cf187b8 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -46,6 +46,9 @@ pub(crate) struct SessionInner {
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
 
+    next_delivery_id: DeliveryNumber,
+    /// frames of already started deliveries, waiting for session window
+    outgoing: VecDeque<Transfer>,
     pending_transfers: VecDeque<PendingTransfer>,
     pub(crate) unsettled_snd_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
     pub(crate) unsettled_rcv_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
@@ -299,6 +302,8 @@ impl SessionInner {
             links: Slab::new(),
             links_by_name: HashMap::default(),
             remote_handles: HashMap::default(),
+            next_delivery_id: INITIAL_NEXT_OUTGOING_ID,
+            outgoing: VecDeque::new(),
             pending_transfers: VecDeque::new(),
             error: None,
             pool_notify: pool::new(),
@@ -339,6 +344,7 @@ impl SessionInner {
         );
 
         // drop pending transfers
+        self.outgoing.clear();
         for tr in self.pending_transfers.drain(..) {
             let _ = tr.tx.send(Err(err.clone()));
         }
@@ -520,6 +526,7 @@ impl SessionInner {
                     }));
 
                     *link = SenderLinkState::Closing(Some(tx));
+                    self.outgoing.retain(|tr| tr.handle() != id);
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
@@ -810,6 +817,9 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    // self.outgoing_window -= 1;
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -843,8 +853,6 @@ impl SessionInner {
                                     )))
                                 }
                                 ReceiverLinkState::Established(link) => {
-                                    // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
@@ -990,6 +998,7 @@ impl SessionInner {
 
                         // drop unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
+                        self.outgoing.retain(|tr| tr.handle() != handle);
                         for delivery in self.unsettled_snd_deliveries.values_mut() {
                             if delivery.handle() == handle {
                                 delivery.set_error(err.clone());
@@ -1152,17 +1161,20 @@ impl SessionInner {
             self.pending_transfers.len(),
         );
 
+        // complete started deliveries
+        while self.remote_incoming_window > 0
+            && let Some(transfer) = self.outgoing.pop_front()
+        {
+            self.send_transfer_frame(transfer);
+        }
+
         while let Some(tr) = self.pending_transfers.pop_front() {
             let _ = tr.tx.send(Ok(()));
         }
 
         if flow.echo() {
             let flow = Flow(Box::new(codec::FlowInner {
-                next_incoming_id: if self.flags.contains(Flags::LOCAL) {
-                    Some(self.next_incoming_id)
-                } else {
-                    None
-                },
+                next_incoming_id: Some(self.next_incoming_id),
                 incoming_window: u32::MAX,
                 next_outgoing_id: self.next_outgoing_id,
                 outgoing_window: self.remote_incoming_window,
@@ -1210,7 +1222,7 @@ impl SessionInner {
         format: Option<MessageFormat>,
     ) -> Result<DeliveryNumber, AmqpProtocolError> {
         loop {
-            if self.remote_incoming_window == 0 {
+            if self.remote_incoming_window == 0 || !self.outgoing.is_empty() {
                 log::trace!(
                     "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
                     self.sink.tag()
@@ -1227,10 +1239,8 @@ impl SessionInner {
             break;
         }
 
-        self.remote_incoming_window -= 1;
-
-        let delivery_id = self.next_outgoing_id;
-        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+        let delivery_id = self.next_delivery_id;
+        self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
 
         let tr_settled = if settled {
             Some(DeliveryState::Accepted(Accepted {}))
@@ -1296,7 +1306,7 @@ impl SessionInner {
                 transfer.batchable(),
                 transfer.settled(),
             );
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
 
             loop {
                 // last chunk
@@ -1314,7 +1324,7 @@ impl SessionInner {
                 transfer.0.more = !body.is_empty();
                 transfer.0.batchable = true;
                 transfer.0.message_format = message_format;
-                self.post_frame(Frame::Transfer(transfer));
+                self.post_transfer(transfer);
             }
         } else {
             let mut transfer = Transfer(Box::default());
@@ -1331,12 +1341,28 @@ impl SessionInner {
                 self.unsettled_snd_deliveries
                     .insert(delivery_id, DeliveryInner::new(link_handle));
             }
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
         }
 
         Ok(delivery_id)
     }
 
+    /// Send transfer frame or wait until session window allows to send it
+    fn post_transfer(&mut self, transfer: Transfer) {
+        if self.remote_incoming_window == 0 || !self.outgoing.is_empty() {
+            self.outgoing.push_back(transfer);
+        } else {
+            self.send_transfer_frame(transfer);
+        }
+    }
+
+    fn send_transfer_frame(&mut self, transfer: Transfer) {
+        // every transfer frame occupies session window
+        self.remote_incoming_window -= 1;
+        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+        self.post_frame(Frame::Transfer(transfer));
+    }
+
     pub(crate) fn post_frame(&mut self, frame: Frame) {
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
-- 
2.43.0


From 59592c307957eaca324b408aa57cc81f83b28f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 14/41] fix: transfer frames must fit into max frame size of
 the peer

---
 src/session.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index cf187b8..4fe83bf 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -22,6 +22,9 @@ use crate::{ConnectionRef, ControlFrame, cell::Cell, types::Action};
 
 pub(crate) const INITIAL_NEXT_OUTGOING_ID: TransferNumber = 1;
 
+/// Upper limit for encoded size of transfer frame, without delivery tag and body
+const TRANSFER_OVERHEAD: usize = 128;
+
 #[derive(Clone)]
 pub struct Session {
     pub(crate) inner: Cell<SessionInner>,
@@ -1239,6 +1242,23 @@ impl SessionInner {
             break;
         }
 
+        // number of body bytes allowed in one frame
+        let max_frame_size = match self.max_frame_size() {
+            0 => usize::MAX,
+            size => {
+                let overhead = TRANSFER_OVERHEAD + tag.len();
+                let reserved = if size > 4096 {
+                    cmp::max(2048, overhead)
+                } else {
+                    overhead
+                };
+                match (size as usize).saturating_sub(reserved) {
+                    0 => return Err(AmqpProtocolError::BodyTooLarge),
+                    size => size,
+                }
+            }
+        };
+
         let delivery_id = self.next_delivery_id;
         self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
 
@@ -1253,15 +1273,6 @@ impl SessionInner {
             format
         };
 
-        let max_frame_size = self.max_frame_size();
-        let max_frame_size = if max_frame_size > 2048 {
-            max_frame_size - 2048
-        } else if max_frame_size == 0 {
-            u32::MAX
-        } else {
-            max_frame_size
-        } as usize;
-
         // body is larger than allowed frame size, send body as a set of transfers
         if body.len() > max_frame_size {
             let mut body = match body {
-- 
2.43.0


From 9d70405e7f7ddca9bd9d363525053427c633110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 15/41] fix: do not consume link credit until session window is
 available

---
 src/session.rs | 64 +++++++++++++++++++++++++++-----------------------
 src/sndlink.rs | 31 +++++++++++++++++++-----
 2 files changed, 59 insertions(+), 36 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 4fe83bf..8f61793 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1215,36 +1215,29 @@ impl SessionInner {
         self.post_frame(flow.into());
     }
 
-    #[allow(clippy::too_many_lines)]
-    pub(crate) async fn send_transfer(
+    /// Register waiter if session window does not allow to send new transfer
+    pub(crate) fn wait_window(
         &mut self,
         link_handle: Handle,
-        tag: Bytes,
-        body: TransferBody,
-        settled: bool,
-        format: Option<MessageFormat>,
-    ) -> Result<DeliveryNumber, AmqpProtocolError> {
-        loop {
-            if self.remote_incoming_window == 0 || !self.outgoing.is_empty() {
-                log::trace!(
-                    "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
-                    self.sink.tag()
-                );
-                let (tx, rx) = self.pool_credit.channel();
-                self.pending_transfers
-                    .push_back(PendingTransfer { tx, link_handle });
-
-                rx.await
-                    .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                    .and_then(|v| v)?;
-                continue;
-            }
-            break;
+    ) -> Option<pool::Receiver<Result<(), AmqpProtocolError>>> {
+        if self.remote_incoming_window == 0 || !self.outgoing.is_empty() {
+            log::trace!(
+                "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
+                self.sink.tag()
+            );
+            let (tx, rx) = self.pool_credit.channel();
+            self.pending_transfers
+                .push_back(PendingTransfer { tx, link_handle });
+            Some(rx)
+        } else {
+            None
         }
+    }
 
-        // number of body bytes allowed in one frame
-        let max_frame_size = match self.max_frame_size() {
-            0 => usize::MAX,
+    /// Number of body bytes allowed in one transfer frame
+    pub(crate) fn max_body_size(&self, tag: &Bytes) -> Result<usize, AmqpProtocolError> {
+        match self.max_frame_size() {
+            0 => Ok(usize::MAX),
             size => {
                 let overhead = TRANSFER_OVERHEAD + tag.len();
                 let reserved = if size > 4096 {
@@ -1253,12 +1246,23 @@ impl SessionInner {
                     overhead
                 };
                 match (size as usize).saturating_sub(reserved) {
-                    0 => return Err(AmqpProtocolError::BodyTooLarge),
-                    size => size,
+                    0 => Err(AmqpProtocolError::BodyTooLarge),
+                    size => Ok(size),
                 }
             }
-        };
+        }
+    }
 
+    #[allow(clippy::too_many_lines)]
+    pub(crate) fn send_transfer(
+        &mut self,
+        link_handle: Handle,
+        tag: Bytes,
+        body: TransferBody,
+        settled: bool,
+        format: Option<MessageFormat>,
+        max_frame_size: usize,
+    ) -> DeliveryNumber {
         let delivery_id = self.next_delivery_id;
         self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
 
@@ -1355,7 +1359,7 @@ impl SessionInner {
             self.post_transfer(transfer);
         }
 
-        Ok(delivery_id)
+        delivery_id
     }
 
     /// Send transfer frame or wait until session window allows to send it
diff --git a/src/sndlink.rs b/src/sndlink.rs
index b53bc5d..1df12a8 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -341,8 +341,16 @@ impl SenderLinkInner {
         } else {
             let body = body.into();
             let tag = self.get_tag(tag);
+            let max_body_size = self.session.inner.get_ref().max_body_size(&tag)?;
 
             loop {
+                // link could be closed while waiting
+                if let Some(ref err) = self.error {
+                    return Err(err.clone());
+                } else if self.closed {
+                    return Err(AmqpProtocolError::LinkDetached(None));
+                }
+
                 if self.link_credit == 0 || !self.pending_transfers.is_empty() {
                     log::trace!(
                         "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
@@ -360,18 +368,29 @@ impl SenderLinkInner {
                         .and_then(|v| v)?;
                     continue;
                 }
+
+                // link credit is not consumed until session window is available
+                let waiter = self.session.inner.get_mut().wait_window(self.id as u32);
+                if let Some(rx) = waiter {
+                    rx.await
+                        .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                        .and_then(|v| v)?;
+                    continue;
+                }
                 break;
             }
 
             // reduce link credit
             self.link_credit -= 1;
             self.delivery_count = self.delivery_count.wrapping_add(1);
-            let id = self
-                .session
-                .inner
-                .get_mut()
-                .send_transfer(self.id as u32, tag.clone(), body, settled, format)
-                .await?;
+            let id = self.session.inner.get_mut().send_transfer(
+                self.id as u32,
+                tag.clone(),
+                body,
+                settled,
+                format,
+                max_body_size,
+            );
 
             Ok((id, tag))
         }
-- 
2.43.0


From e114b202a2d23aba84818a772d57381b93f2e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 16/41] fix: fail transfers and unsettled deliveries of locally
 closed link

---
 src/session.rs | 47 ++++++++++++++++++++++++++++++++++++-----------
 src/sndlink.rs | 16 ++++++++--------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 8f61793..545d2bd 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -286,6 +286,23 @@ struct PendingTransfer {
     link_handle: Handle,
 }
 
+/// Fail transfers of the link which wait for session window
+fn drop_pending_transfers(
+    pending: &mut VecDeque<PendingTransfer>,
+    link_handle: Handle,
+    err: &AmqpProtocolError,
+) {
+    let mut idx = 0;
+    while idx < pending.len() {
+        if pending[idx].link_handle == link_handle {
+            let tr = pending.remove(idx).unwrap();
+            let _ = tr.tx.send(Err(err.clone()));
+        } else {
+            idx += 1;
+        }
+    }
+}
+
 impl SessionInner {
     pub(crate) fn new(
         id: usize,
@@ -530,6 +547,9 @@ impl SessionInner {
 
                     *link = SenderLinkState::Closing(Some(tx));
                     self.outgoing.retain(|tr| tr.handle() != id);
+                    let err = AmqpProtocolError::LinkDetached(None);
+                    sender_link.inner.get_mut().drop_pending(&err);
+                    drop_pending_transfers(&mut self.pending_transfers, id, &err);
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
@@ -988,19 +1008,10 @@ impl SessionInner {
                         self.links_by_name.remove(link.inner.name());
 
                         // drop pending transfers
-                        let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
-                        while idx < self.pending_transfers.len() {
-                            if self.pending_transfers[idx].link_handle == handle {
-                                let tr = self.pending_transfers.remove(idx).unwrap();
-                                let _ = tr.tx.send(Err(err.clone()));
-                            } else {
-                                idx += 1;
-                            }
-                        }
+                        let handle = link.inner.get_ref().id() as Handle;
+                        drop_pending_transfers(&mut self.pending_transfers, handle, &err);
 
                         // drop unsettled transfers
-                        let handle = link.inner.get_ref().id() as Handle;
                         self.outgoing.retain(|tr| tr.handle() != handle);
                         for delivery in self.unsettled_snd_deliveries.values_mut() {
                             if delivery.handle() == handle {
@@ -1023,6 +1034,13 @@ impl SessionInner {
                         true
                     }
                     SenderLinkState::Closing(tx) => {
+                        // link is gone, state of unsettled deliveries is unknown
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_snd_deliveries.values_mut() {
+                            if delivery.handle() as usize == idx {
+                                delivery.set_error(err.clone());
+                            }
+                        }
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
                                 let _ = tx.send(Err(AmqpProtocolError::LinkDetached(Some(err))));
@@ -1076,6 +1094,13 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Closing(tx) => {
+                        // link is gone, state of unsettled deliveries is unknown
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
+                            if delivery.handle() as usize == idx {
+                                delivery.set_error(err.clone());
+                            }
+                        }
                         // detach confirmation
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 1df12a8..d0b63dc 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -232,10 +232,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
@@ -252,10 +248,7 @@ impl SenderLinkInner {
             err
         );
 
-        // drop pending transfers
-        for tx in self.pending_transfers.drain(..) {
-            let _ = tx.send(Err(err.clone()));
-        }
+        self.drop_pending(&err);
 
         self.closed = true;
         self.error = Some(err);
@@ -263,6 +256,13 @@ impl SenderLinkInner {
         self.on_credit.notify_and_lock_readiness();
     }
 
+    /// Fail transfers which wait for link credit
+    pub(crate) fn drop_pending(&mut self, err: &AmqpProtocolError) {
+        for tx in self.pending_transfers.drain(..) {
+            let _ = tx.send(Err(err.clone()));
+        }
+    }
+
     pub(crate) fn close(
         &mut self,
         error: Option<Error>,
-- 
2.43.0


From fa9fca8c61d0121cd4a94a5fdd01db31cb4834f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 17/41] fix: delivery settled by the remote must not be settled
 or awaited again

---
 src/delivery.rs | 108 +++++++++++++++++++++++++-----------------------
 1 file changed, 56 insertions(+), 52 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..93ad148 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -33,7 +33,7 @@ pub(crate) struct DeliveryInner {
     settled: bool,
     state: Option<DeliveryState>,
     error: Option<AmqpProtocolError>,
-    tx: Option<pool::Sender<()>>,
+    waiters: Vec<pool::Sender<()>>,
 }
 
 impl Delivery {
@@ -87,12 +87,23 @@ impl Delivery {
     }
 
     pub fn is_remote_settled(&self) -> bool {
+        if !self.is_set(Flags::REMOTE_SETTLED)
+            && self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+                .is_some_and(|inner| inner.settled)
+        {
+            self.set_flag(Flags::REMOTE_SETTLED);
+        }
         self.is_set(Flags::REMOTE_SETTLED)
     }
 
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
@@ -117,7 +128,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) {
             return;
         }
 
@@ -152,46 +163,32 @@ impl Delivery {
             return Ok(None);
         }
 
-        let rx = if let Some(inner) = self
-            .session
-            .inner
-            .get_mut()
-            .unsettled_deliveries(self.is_set(Flags::SENDER))
-            .get_mut(&self.id)
-        {
-            if let Some(st) = Self::check_inner(inner) {
-                return st;
-            }
-
-            let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
-            inner.tx = Some(tx);
-            rx
-        } else {
-            // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
-        };
-        if rx.await.is_err() {
-            return Err(AmqpProtocolError::ConnectionDropped);
-        }
-
-        if let Some(inner) = self
-            .session
-            .inner
-            .get_mut()
-            .unsettled_deliveries(self.is_set(Flags::SENDER))
-            .get_mut(&self.id)
-        {
-            if inner.settled {
-                self.set_flag(Flags::REMOTE_SETTLED);
-            }
-            if let Some(st) = Self::check_inner(inner) {
-                return st;
+        loop {
+            let rx = if let Some(inner) = self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get_mut(&self.id)
+            {
+                if inner.settled {
+                    self.set_flag(Flags::REMOTE_SETTLED);
+                }
+                if let Some(st) = Self::check_inner(inner) {
+                    return st;
+                }
+
+                let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
+                inner.waiters.push(tx);
+                rx
+            } else {
+                // session ended
+                return Err(AmqpProtocolError::LinkDetached(None));
+            };
+            if rx.await.is_err() {
+                return Err(AmqpProtocolError::ConnectionDropped);
             }
-        } else {
-            // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
         }
-        Ok(None)
     }
 
     fn check_inner(
@@ -205,8 +202,13 @@ impl Delivery {
                 // return clone of terminal state
                 Some(Ok(Some(st.clone())))
             }
+        } else if let Some(ref err) = inner.error {
+            Some(Err(err.clone()))
+        } else if inner.settled {
+            // settled without state
+            Some(Ok(None))
         } else {
-            inner.error.as_ref().map(|err| Err(err.clone()))
+            None
         }
     }
 }
@@ -216,8 +218,10 @@ impl Drop for Delivery {
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
-        if deliveries.contains_key(&self.id) {
-            deliveries.remove(&self.id);
+        if let Some(delivery) = deliveries.remove(&self.id) {
+            if delivery.settled {
+                self.set_flag(Flags::REMOTE_SETTLED);
+            }
 
             if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
                 let err = Error::build()
@@ -248,7 +252,7 @@ impl DeliveryInner {
     pub(crate) fn new(handle: Handle) -> Self {
         Self {
             handle,
-            tx: None,
+            waiters: Vec::new(),
             state: None,
             error: None,
             settled: false,
@@ -261,9 +265,7 @@ impl DeliveryInner {
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
         self.error = Some(error);
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 
     pub(crate) fn handle_disposition(&mut self, disp: &Disposition) {
@@ -273,7 +275,11 @@ impl DeliveryInner {
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
         }
-        if let Some(tx) = self.tx.take() {
+        self.notify();
+    }
+
+    fn notify(&mut self) {
+        for tx in self.waiters.drain(..) {
             let _ = tx.send(());
         }
     }
@@ -281,9 +287,7 @@ impl DeliveryInner {
 
 impl Drop for DeliveryInner {
     fn drop(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 }
 
-- 
2.43.0


From 2880a21cd3cb36686c711fc965a3de0950a30b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 18/41] fix: ended session must not send frames or wait for new
 links

---
 src/delivery.rs |  7 ++++++-
 src/session.rs  | 29 +++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 93ad148..caa150d 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -183,7 +183,12 @@ impl Delivery {
                 rx
             } else {
                 // session ended
-                return Err(AmqpProtocolError::LinkDetached(None));
+                return Err(self
+                    .session
+                    .inner
+                    .get_ref()
+                    .error()
+                    .unwrap_or(AmqpProtocolError::LinkDetached(None)));
             };
             if rx.await.is_err() {
                 return Err(AmqpProtocolError::ConnectionDropped);
diff --git a/src/session.rs b/src/session.rs
index 545d2bd..f56da24 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -356,6 +356,16 @@ impl SessionInner {
         }
     }
 
+    /// Session is ended or end frame is sent
+    fn is_ended(&self) -> bool {
+        self.flags.intersects(Flags::ENDED | Flags::ENDING)
+    }
+
+    /// Session error, if session is ended
+    pub(crate) fn error(&self) -> Option<AmqpProtocolError> {
+        self.error.clone()
+    }
+
     /// Set error. New operations will return error.
     pub(crate) fn set_error(&mut self, err: AmqpProtocolError) {
         log::trace!(
@@ -464,6 +474,13 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        if self.is_ended() {
+            let _ = tx.send(Err(self
+                .error()
+                .unwrap_or(AmqpProtocolError::SessionEnded(None))));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
         entry.insert(Either::Left(SenderLinkState::Opening(
@@ -682,6 +699,13 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        if self.is_ended() {
+            let _ = tx.send(Err(self
+                .error()
+                .unwrap_or(AmqpProtocolError::SessionEnded(None))));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
@@ -1404,6 +1428,11 @@ impl SessionInner {
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
+        // nothing can be sent after end frame
+        if self.is_ended() {
+            log::trace!("{}: Session is ended, dropping frame", self.tag());
+            return;
+        }
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
-- 
2.43.0


From 84229f57ac265857c583f12ac5a3cae3d022295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 19/41] fix: resolve all pending session and link operations if
 session or connection is lost

---
 src/connection.rs |  4 ++--
 src/rcvlink.rs    |  4 +++-
 src/session.rs    | 22 +++++++++++++++++++---
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..422ba77 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -220,8 +220,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..87d62b5 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -470,7 +470,9 @@ impl std::ops::Deref for EstablishedReceiverLink {
 
 impl Drop for EstablishedReceiverLink {
     fn drop(&mut self) {
-        self.0.inner.get_mut().closed = true;
+        let inner = self.0.inner.get_mut();
+        inner.closed = true;
+        inner.wake();
     }
 }
 
diff --git a/src/session.rs b/src/session.rs
index f56da24..c624553 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -111,7 +111,7 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
                 inner
@@ -394,15 +394,31 @@ impl SessionInner {
                 Either::Left(SenderLinkState::Established(link)) => {
                     link.inner.get_mut().remote_detached(err.clone());
                 }
-                Either::Left(SenderLinkState::Closing(link)) => {
+                Either::Left(SenderLinkState::Opening(tx, _)) => {
+                    if let Some(tx) = tx.take() {
+                        let _ = tx.send(Err(err.clone()));
+                    }
+                }
+                Either::Left(SenderLinkState::Closing(link))
+                | Either::Right(ReceiverLinkState::Closing(link)) => {
                     if let Some(tx) = link.take() {
                         let _ = tx.send(Err(err.clone()));
                     }
                 }
+                Either::Left(SenderLinkState::OpeningRemote) => (),
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
-                _ => (),
+                Either::Right(ReceiverLinkState::OpeningLocal(item)) => {
+                    if let Some((_, tx)) = item.take() {
+                        let _ = tx.send(Err(err.clone()));
+                    }
+                }
+                Either::Right(ReceiverLinkState::Opening(item)) => {
+                    if let Some((link, _)) = item.take() {
+                        ReceiverLink::new(link).remote_detached(None);
+                    }
+                }
             }
         }
         self.links.clear();
-- 
2.43.0


From fb3b21e37058798a11cdf24bef0637cfd9110d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 20/41] fix: send close frame once and nothing after it

---
 src/connection.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 422ba77..9e851a6 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -156,9 +156,7 @@ impl ConnectionRef {
 
     /// Gracefully close connection
     pub fn close(&self) -> impl Future<Output = Result<(), AmqpProtocolError>> {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(0, Frame::Close(Close { error: None })));
-        inner.io.close();
+        self.0.get_mut().close(None);
         Ready::Ok(())
     }
 
@@ -167,14 +165,7 @@ impl ConnectionRef {
     where
         Error: From<E>,
     {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(
-            0,
-            Frame::Close(Close {
-                error: Some(err.into()),
-            }),
-        ));
-        inner.io.close();
+        self.0.get_mut().close(Some(err.into()));
         Ready::Ok(())
     }
 
@@ -192,14 +183,7 @@ impl ConnectionRef {
     }
 
     pub(crate) fn post_frame(&self, frame: AmqpFrame) {
-        let inner = self.0.get_mut();
-
-        #[cfg(feature = "frame-trace")]
-        log::trace!("{}: outgoing: {:#?}", inner.io.tag(), frame);
-
-        if let Err(e) = inner.io.encode(frame, &inner.codec) {
-            inner.set_error(e.into());
-        }
+        self.0.get_mut().post_frame(frame);
     }
 
     pub(crate) fn set_error(&self, err: AmqpProtocolError) {
@@ -235,7 +219,22 @@ impl ConnectionInner {
         self.on_close.notify_and_lock_readiness();
     }
 
+    fn close(&mut self, error: Option<Error>) {
+        // close frame must be sent only once
+        if self.state == ConnectionState::Normal {
+            self.post_frame(AmqpFrame::new(0, Close { error }.into()));
+            self.state = ConnectionState::Closing;
+        }
+        self.io.close();
+    }
+
     pub(crate) fn post_frame(&mut self, frame: AmqpFrame) {
+        // nothing can be sent after close frame
+        if self.state != ConnectionState::Normal {
+            log::trace!("{}: Connection is closed, dropping frame", self.io.tag());
+            return;
+        }
+
         #[cfg(feature = "frame-trace")]
         log::trace!("{}: outgoing: {:#?}", self.io.tag(), frame);
 
@@ -250,6 +249,10 @@ impl ConnectionInner {
         begin: Begin,
         cell: &Cell<ConnectionInner>,
     ) -> Result<(), AmqpProtocolError> {
+        if self.error.is_some() || self.state != ConnectionState::Normal {
+            return Ok(());
+        }
+
         log::trace!(
             "{}: Remote session opened: {:?}",
             self.io.tag(),
@@ -362,6 +365,8 @@ impl ConnectionInner {
                     log::trace!("{}: Connection closed: {:?}", self.io.tag(), close);
                     self.set_error(AmqpProtocolError::Disconnected);
                     Ok(Action::None)
+                } else if self.state == ConnectionState::RemoteClose {
+                    Ok(Action::None)
                 } else {
                     log::trace!("{}: Connection closed remotely: {:?}", self.io.tag(), close);
                     let err = AmqpProtocolError::Closed(close.error);
@@ -581,6 +586,8 @@ async fn open_session(
     if let Some(ref e) = inner.error {
         log::error!("{}: Connection is in error state: {:?}", inner.io.tag(), e);
         Err(e.clone())
+    } else if inner.state != ConnectionState::Normal {
+        Err(AmqpProtocolError::Disconnected)
     } else {
         let (tx, rx) = oneshot::channel();
 
-- 
2.43.0


From 9939378c8d39149b61f62c8d28d305317513160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:40 +0000
Subject: [PATCH 21/41] fix: respect negotiated channel-max

---
 src/connection.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 9e851a6..064ba24 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -30,6 +30,7 @@ pub(crate) struct ConnectionInner {
     pub(crate) on_close: Condition,
     pub(crate) error: Option<AmqpProtocolError>,
     channel_max: u16,
+    remote_channel_max: u16,
     pub(crate) max_frame_size: u32,
 }
 
@@ -70,6 +71,7 @@ impl Connection {
             error: None,
             on_close: Condition::new(),
             channel_max: local_config.channel_max,
+            remote_channel_max: remote_config.channel_max,
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -381,12 +383,18 @@ impl ConnectionInner {
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
-                if let Some(local_channel_id) = begin.remote_channel() {
+                if channel_id > self.channel_max || self.sessions_map.contains_key(&channel_id) {
+                    log::error!("{}: Invalid channel: {channel_id}", self.io.tag());
+                    Err(AmqpProtocolError::Unexpected(Frame::Begin(begin)))
+                } else if let Some(local_channel_id) = begin.remote_channel() {
                     self.complete_session_creation(local_channel_id, channel_id, begin);
+                    Ok(Action::None)
+                } else if self.sessions.vacant_key() > self.remote_channel_max as usize {
+                    Err(AmqpProtocolError::TooManyChannels)
                 } else {
                     self.register_remote_session(channel_id, begin, inner)?;
+                    Ok(Action::None)
                 }
-                Ok(Action::None)
             }
             _ => {
                 if self.error.is_some() {
@@ -594,7 +602,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token >= inner.channel_max as usize || token > inner.remote_channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From 0a4d0aa8a8d609b380aca41da358e9f2dcb65d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 22/41] fix: receiver credit is absolute and must not overflow,
 delivery count is a serial number

---
 src/rcvlink.rs | 29 ++++++++++++++++++++++++-----
 src/session.rs |  1 +
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 87d62b5..a95bc23 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -31,6 +31,8 @@ pub(crate) struct ReceiverLinkInner {
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
     delivery_count: u32,
+    /// delivery count allowed by the largest credit announced to the sender
+    delivery_limit: u32,
     error: Option<Error>,
     partial_body: Option<BytesMut>,
     max_message_size: u64,
@@ -241,11 +243,20 @@ impl ReceiverLinkInner {
             error: None,
             partial_body: None,
             delivery_count: frame.initial_delivery_count().unwrap_or(0),
+            delivery_limit: frame.initial_delivery_count().unwrap_or(0),
             max_message_size: 262_144,
             reader_task: LocalWaker::new(),
         }
     }
 
+    /// Local link is confirmed by the remote
+    pub(crate) fn attached(&mut self, attach: &Attach) {
+        // initial delivery count is defined by the sender
+        self.remote_handle = attach.handle();
+        self.delivery_count = attach.initial_delivery_count().unwrap_or(0);
+        self.delivery_limit = self.delivery_count;
+    }
+
     fn wake(&self) {
         self.reader_task.wake();
     }
@@ -290,7 +301,16 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
-        self.credit += credit;
+        if self.closed {
+            return;
+        }
+        self.credit = credit;
+
+        // sender could use credit announced before, until it receives new value
+        let used = self.delivery_limit.wrapping_sub(self.delivery_count);
+        if credit > used {
+            self.delivery_limit = self.delivery_count.wrapping_add(credit);
+        }
         self.session
             .inner
             .get_mut()
@@ -303,7 +323,7 @@ impl ReceiverLinkInner {
         mut transfer: Transfer,
         inner: &Cell<ReceiverLinkInner>,
     ) -> Action {
-        if self.credit == 0 {
+        if self.delivery_limit == self.delivery_count {
             // check link credit
             let err = Error(Box::new(codec::ErrorInner {
                 condition: LinkError::TransferLimitExceeded.into(),
@@ -314,7 +334,8 @@ impl ReceiverLinkInner {
             Action::None
         } else {
             if !transfer.0.more {
-                self.credit -= 1;
+                self.credit = self.credit.saturating_sub(1);
+                self.delivery_count = self.delivery_count.wrapping_add(1);
             }
 
             // handle batched transfer
@@ -356,7 +377,6 @@ impl ReceiverLinkInner {
                     Action::None
                 } else {
                     // received last partial transfer
-                    self.delivery_count += 1;
                     let partial_body = self.partial_body.take();
                     if partial_body.is_some() && !self.queue.is_empty() {
                         self.queue.back_mut().unwrap().1.0.body =
@@ -423,7 +443,6 @@ impl ReceiverLinkInner {
                     Action::None
                 }
             } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
                 let delivery = Delivery::new_rcv(
                     id,
                     self.handle,
diff --git a/src/session.rs b/src/session.rs
index c624553..1f3de72 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -984,6 +984,7 @@ impl SessionInner {
                         if let ReceiverLinkState::OpeningLocal(opt_item) = item {
                             if let Some((link, tx)) = opt_item.take() {
                                 self.remote_handles.insert(attach.handle(), *index);
+                                link.get_mut().attached(attach);
 
                                 *item = ReceiverLinkState::Established(
                                     EstablishedReceiverLink::new(link.clone()),
-- 
2.43.0


From 2d92fa651a1024ccbb6f326a6f34279d35ebd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 23/41] fix: discard aborted deliveries, respect settled flag
 of every transfer and limit size of every message

---
 src/delivery.rs | 10 ++++++++++
 src/rcvlink.rs  | 45 +++++++++++++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index caa150d..a5c9f4d 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -64,6 +64,16 @@ impl Delivery {
         }
     }
 
+    /// Remote side settled delivery
+    pub(crate) fn remote_settled(&self) {
+        self.set_flag(Flags::LOCAL_SETTLED | Flags::REMOTE_SETTLED);
+        self.session
+            .inner
+            .get_mut()
+            .unsettled_deliveries(self.is_set(Flags::SENDER))
+            .remove(&self.id);
+    }
+
     pub fn id(&self) -> DeliveryNumber {
         self.id
     }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index a95bc23..64f27a4 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -333,11 +333,34 @@ impl ReceiverLinkInner {
             let _ = self.close(Some(err));
             Action::None
         } else {
-            if !transfer.0.more {
+            if !transfer.0.more || transfer.0.aborted {
                 self.credit = self.credit.saturating_sub(1);
                 self.delivery_count = self.delivery_count.wrapping_add(1);
             }
 
+            // aborted delivery must be discarded, it is settled by the sender
+            if transfer.aborted() {
+                if self.partial_body.take().is_some()
+                    && let Some((delivery, _)) = self.queue.pop_back()
+                {
+                    delivery.remote_settled();
+                }
+                return Action::None;
+            }
+
+            // message size
+            let body_len = self.partial_body.as_ref().map_or(0, BytesMut::len)
+                + transfer.0.body.as_ref().map_or(0, TransferBody::len);
+            if self.max_message_size != 0 && body_len as u64 > self.max_message_size {
+                let err = Error(Box::new(codec::ErrorInner {
+                    condition: LinkError::MessageSizeExceeded.into(),
+                    description: None,
+                    info: None,
+                }));
+                let _ = self.close(Some(err));
+                return Action::None;
+            }
+
             // handle batched transfer
             if let Some(ref mut body) = self.partial_body {
                 if transfer.0.delivery_id.is_some() {
@@ -357,21 +380,19 @@ impl ReceiverLinkInner {
                     }
                 }
 
-                // merge transfer data and check size
+                // merge transfer data
                 if let Some(transfer_body) = transfer.0.body.take() {
-                    if body.len() + transfer_body.len() > self.max_message_size as usize {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::MessageSizeExceeded.into(),
-                            description: None,
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
-                    }
-
                     transfer_body.encode(body);
                 }
 
+                // delivery could be settled by any of its transfers
+                if transfer.settled().unwrap_or_default()
+                    && let Some((delivery, first)) = self.queue.back_mut()
+                {
+                    first.0.settled = Some(true);
+                    delivery.remote_settled();
+                }
+
                 if transfer.more() {
                     // dont need to update queue, we use first transfer frame as primary
                     Action::None
-- 
2.43.0


From 26a3b08a6ab13b06656c117168753d7b2c012204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 24/41] fix: enforce announced max message size, zero means no
 limit

---
 src/rcvlink.rs |  2 +-
 src/session.rs | 13 ++++---------
 src/sndlink.rs | 13 +++++++------
 3 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 64f27a4..749601b 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -35,7 +35,7 @@ pub(crate) struct ReceiverLinkInner {
     delivery_limit: u32,
     error: Option<Error>,
     partial_body: Option<BytesMut>,
-    max_message_size: u64,
+    pub(crate) max_message_size: u64,
 }
 
 impl Eq for ReceiverLink {}
diff --git a/src/session.rs b/src/session.rs
index 1f3de72..0af9a60 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -725,12 +725,9 @@ impl SessionInner {
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
-        let inner = Cell::new(ReceiverLinkInner::new(
-            cell,
-            token as u32,
-            token as u32,
-            &frame,
-        ));
+        let mut inner = ReceiverLinkInner::new(cell, token as u32, token as u32, &frame);
+        inner.max_message_size = frame.max_message_size().unwrap_or(0);
+        let inner = Cell::new(inner);
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
         )))));
@@ -960,9 +957,7 @@ impl SessionInner {
                             attach.handle(),
                             delivery_count,
                             cell,
-                            attach
-                                .max_message_size()
-                                .map(|v| u32::try_from(v).unwrap_or(u32::MAX)),
+                            attach.max_message_size(),
                         ));
                         let local_sender = mem::replace(
                             item,
diff --git a/src/sndlink.rs b/src/sndlink.rs
index d0b63dc..84a863b 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -183,8 +183,13 @@ impl SenderLinkInner {
         handle: Handle,
         delivery_count: SequenceNo,
         session: Cell<SessionInner>,
-        max_message_size: Option<u32>,
+        max_message_size: Option<u64>,
     ) -> SenderLinkInner {
+        // there is no limit if value is 0
+        let max_message_size = max_message_size
+            .filter(|size| *size != 0)
+            .map(|size| u32::try_from(size).unwrap_or(u32::MAX));
+
         SenderLinkInner {
             id,
             name,
@@ -214,17 +219,13 @@ impl SenderLinkInner {
         name.trimdown();
 
         let delivery_count = frame.initial_delivery_count().unwrap_or(0);
-        let max_message_size = frame
-            .max_message_size()
-            .map(|size| u32::try_from(size).unwrap_or(u32::MAX));
-
         SenderLinkInner::new(
             id,
             name,
             frame.handle(),
             delivery_count,
             session,
-            max_message_size,
+            frame.max_message_size(),
         )
     }
 
-- 
2.43.0


From f94ddabc602d78571a18e2c7d2e324e5d9ab0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 25/41] fix: link name is unique per direction and must be
 released on detach

---
 src/session.rs | 160 +++++++++++++++++++++++++++----------------------
 src/sndlink.rs |   4 --
 2 files changed, 87 insertions(+), 77 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 0af9a60..61b5e01 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1,4 +1,4 @@
-use std::{cmp, collections::VecDeque, fmt, future::Future, mem};
+use std::{cmp, collections::VecDeque, fmt, future::Future};
 
 use ntex_bytes::{ByteString, Bytes};
 use ntex_util::channel::{condition, oneshot, pool};
@@ -45,6 +45,9 @@ pub(crate) struct SessionInner {
 
     links: Slab<Either<SenderLinkState, ReceiverLinkState>>,
     links_by_name: HashMap<ByteString, usize>,
+    /// local links, waiting for remote attach
+    opening_senders: HashMap<ByteString, usize>,
+    opening_receivers: HashMap<ByteString, usize>,
     remote_handles: HashMap<Handle, usize>,
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
@@ -265,12 +268,6 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
-impl ReceiverLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, ReceiverLinkState::OpeningLocal(_))
-    }
-}
-
 bitflags::bitflags! {
     #[derive(Copy, Clone, Debug)]
     struct Flags: u8 {
@@ -321,6 +318,8 @@ impl SessionInner {
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
             links_by_name: HashMap::default(),
+            opening_senders: HashMap::default(),
+            opening_receivers: HashMap::default(),
             remote_handles: HashMap::default(),
             next_delivery_id: INITIAL_NEXT_OUTGOING_ID,
             outgoing: VecDeque::new(),
@@ -389,6 +388,8 @@ impl SessionInner {
 
         // drop links
         self.links_by_name.clear();
+        self.opening_senders.clear();
+        self.opening_receivers.clear();
         for (_, st) in &mut self.links {
             match st {
                 Either::Left(SenderLinkState::Established(link)) => {
@@ -497,6 +498,12 @@ impl SessionInner {
             return rx;
         }
 
+        // name must be unique
+        if self.opening_senders.contains_key(frame.name()) {
+            let _ = tx.send(Err(AmqpProtocolError::LinkDetached(None)));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
         entry.insert(Either::Left(SenderLinkState::Opening(
@@ -511,7 +518,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_senders.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -722,6 +729,12 @@ impl SessionInner {
             return rx;
         }
 
+        // name must be unique
+        if self.opening_receivers.contains_key(frame.name()) {
+            let _ = tx.send(Err(AmqpProtocolError::LinkDetached(None)));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
@@ -734,7 +747,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_receivers.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -937,71 +950,62 @@ impl SessionInner {
     pub(crate) fn handle_attach(&mut self, attach: &Attach, cell: Cell<SessionInner>) -> bool {
         let name = attach.name();
 
-        if let Some(index) = self.links_by_name.get(name) {
-            match self.links.get_mut(*index) {
-                Some(Either::Left(item)) => {
-                    if let SenderLinkState::Opening(_, delivery_count) = item {
-                        // initial delivery count is defined by the sender
-                        let delivery_count = *delivery_count;
-                        log::trace!(
-                            "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
-                            self.sink.tag(),
-                            attach.handle(),
-                            self.remote_handles.contains_key(&attach.handle())
-                        );
-
-                        self.remote_handles.insert(attach.handle(), *index);
-                        let link = Cell::new(SenderLinkInner::new(
-                            *index,
-                            name.clone(),
-                            attach.handle(),
-                            delivery_count,
-                            cell,
-                            attach.max_message_size(),
-                        ));
-                        let local_sender = mem::replace(
-                            item,
-                            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-                        );
+        // names of the links are unique per direction
+        let index = match attach.0.role {
+            Role::Receiver => self.opening_senders.remove(name),
+            Role::Sender => self.opening_receivers.remove(name),
+        };
+        let Some(index) = index else {
+            // cannot handle remote attach
+            return false;
+        };
+        log::trace!(
+            "{}: Local link attached: {name:?} {index} -> {}, {:?}",
+            self.sink.tag(),
+            attach.handle(),
+            self.remote_handles.contains_key(&attach.handle())
+        );
+        self.remote_handles.insert(attach.handle(), index);
+
+        match self.links.get_mut(index) {
+            Some(Either::Left(item)) => {
+                if let SenderLinkState::Opening(tx, delivery_count) = item {
+                    // initial delivery count is defined by the sender
+                    let link = Cell::new(SenderLinkInner::new(
+                        index,
+                        name.clone(),
+                        attach.handle(),
+                        *delivery_count,
+                        cell,
+                        attach.max_message_size(),
+                    ));
+                    let tx = tx.take();
+                    *item = SenderLinkState::Established(EstablishedSenderLink::new(link.clone()));
+                    self.links_by_name.insert(name.clone(), index);
 
-                        if let SenderLinkState::Opening(Some(tx), _) = local_sender {
-                            let _ = tx.send(Ok(link));
-                        }
+                    if let Some(tx) = tx {
+                        let _ = tx.send(Ok(link));
                     }
                 }
-                Some(Either::Right(item)) => {
-                    if item.is_opening() {
-                        log::trace!(
-                            "{}: Local receiver link attached: {name:?} {index} -> {}",
-                            self.sink.tag(),
-                            attach.handle()
-                        );
-                        if let ReceiverLinkState::OpeningLocal(opt_item) = item {
-                            if let Some((link, tx)) = opt_item.take() {
-                                self.remote_handles.insert(attach.handle(), *index);
-                                link.get_mut().attached(attach);
+            }
+            Some(Either::Right(item)) => {
+                if let ReceiverLinkState::OpeningLocal(opt_item) = item {
+                    if let Some((link, tx)) = opt_item.take() {
+                        link.get_mut().attached(attach);
 
-                                *item = ReceiverLinkState::Established(
-                                    EstablishedReceiverLink::new(link.clone()),
-                                );
-                                let _ = tx.send(Ok(ReceiverLink::new(link)));
-                            } else {
-                                // TODO: close session
-                                log::error!("{}: Inconsistent session state, bug", self.tag());
-                            }
-                        }
+                        *item = ReceiverLinkState::Established(EstablishedReceiverLink::new(
+                            link.clone(),
+                        ));
+                        let _ = tx.send(Ok(ReceiverLink::new(link)));
+                    } else {
+                        // TODO: close session
+                        log::error!("{}: Inconsistent session state, bug", self.tag());
                     }
                 }
-                _ => {
-                    // TODO: error in proto, have to close connection
-                    log::trace!("Protocol error");
-                }
             }
-            true
-        } else {
-            // cannot handle remote attach
-            false
+            None => log::error!("{}: Inconsistent session state, bug", self.tag()),
         }
+        true
     }
 
     #[allow(clippy::too_many_lines)]
@@ -1010,7 +1014,12 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
+        } else if let Some(
+            Either::Left(SenderLinkState::Opening(..))
+            | Either::Right(ReceiverLinkState::OpeningLocal(_)),
+        ) = self.links.get(frame.handle() as usize)
+        {
+            // link is refused without attach
             frame.handle() as usize
         } else {
             // should not happen, error
@@ -1040,9 +1049,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop pending transfers
                         let handle = link.inner.get_ref().id() as Handle;
                         drop_pending_transfers(&mut self.pending_transfers, handle, &err);
@@ -1154,14 +1160,22 @@ impl SessionInner {
         };
 
         if remove {
-            if self.links.contains(idx) {
-                self.links.remove(idx);
-            }
+            self.remove_link(idx);
             self.remote_handles.remove(&handle);
         }
         action
     }
 
+    /// Release link slot
+    fn remove_link(&mut self, idx: usize) {
+        if self.links.contains(idx) {
+            self.links.remove(idx);
+        }
+        self.links_by_name.retain(|_, id| *id != idx);
+        self.opening_senders.retain(|_, id| *id != idx);
+        self.opening_receivers.retain(|_, id| *id != idx);
+    }
+
     fn settle_deliveries(&mut self, disp: &Disposition) {
         let from = disp.first();
         let to = disp.last();
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 84a863b..dc576c4 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -233,10 +233,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
-- 
2.43.0


From bfe23bac09c61c681a41f8130e4e8cd4b600f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 26/41] fix: handle flow and detach of remote link before it is
 confirmed

---
 src/connection.rs |   9 +-
 src/dispatcher.rs |  23 ++++--
 src/rcvlink.rs    |  16 ++++
 src/session.rs    | 207 ++++++++++++++++++++++++++++++----------------
 4 files changed, 169 insertions(+), 86 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 064ba24..70782d5 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -9,7 +9,6 @@ use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Rol
 use crate::codec::{AmqpCodec, AmqpFrame, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
-use crate::sndlink::{SenderLink, SenderLinkInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
@@ -437,11 +436,9 @@ impl ConnectionInner {
                                 match attach.0.role {
                                     Role::Receiver => {
                                         // remotly opened sender link
-                                        let (id, response) =
-                                            session.get_mut().new_remote_sender(&attach);
-                                        let link = SenderLink::new(Cell::new(
-                                            SenderLinkInner::with(id, &attach, session.clone()),
-                                        ));
+                                        let (link, response) = session
+                                            .get_mut()
+                                            .new_remote_sender(session.clone(), &attach);
                                         Ok(Action::AttachSender(link, attach, response))
                                     }
                                     Role::Sender => {
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..d52be1f 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -302,9 +302,12 @@ where
         err: Option<Error>,
     ) -> Result<(), AmqpDispatcherError> {
         if let Some(err) = err {
-            match &frame.0.get_mut().kind {
-                ControlFrameKind::AttachReceiver(_, _, link)
-                | ControlFrameKind::RemoteDetachReceiver(_, link) => {
+            match &mut frame.0.get_mut().kind {
+                ControlFrameKind::AttachReceiver(_, pfrm, link) => {
+                    let response = pfrm.take();
+                    link.reject(Some(response), err);
+                }
+                ControlFrameKind::RemoteDetachReceiver(_, link) => {
                     let _ = link.close_with_error(err);
                 }
                 ControlFrameKind::AttachSender(frm, _, link) => {
@@ -332,15 +335,21 @@ where
             match frame.0.get_mut().kind {
                 ControlFrameKind::AttachReceiver(ref frm, ref mut pfrm, ref link) => {
                     let link = link.clone();
+                    let response = pfrm.take();
+
+                    if link.is_closed() {
+                        // link is detached by remote already
+                        link.confirm_receiver_link(response);
+                        return Ok(());
+                    }
                     let fut = self
                         .service
                         .call(types::Message::Attached(frm.clone(), link.clone()));
-                    let response = pfrm.take();
 
                     ntex_rt::spawn(async move {
                         let result = fut.await;
                         if let Err(err) = result {
-                            let _ = link.close_with_error(Error::from(err)).await;
+                            link.reject(Some(response), Error::from(err));
                         } else {
                             link.confirm_receiver_link(response);
                             link.set_link_credit(50);
@@ -351,11 +360,11 @@ where
                     frame.session_cell().get_mut().attach_remote_sender_link(
                         frm,
                         pfrm.take(),
-                        link.inner.clone(),
+                        &link.inner,
                     );
                 }
                 ControlFrameKind::Flow(ref frm, ref link) => {
-                    frame.session_cell().get_mut().handle_flow(frm, Some(link));
+                    link.inner.get_mut().apply_flow(frm);
                 }
                 ControlFrameKind::ProtocolError(ref err) => {
                     self.sink.set_error(err.clone());
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 749601b..3781db9 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -85,6 +85,18 @@ impl ReceiverLink {
         self.inner.get_ref().error.as_ref()
     }
 
+    /// Refuse link
+    pub(crate) fn reject(&self, response: Option<Attach>, err: Error) {
+        if self.is_closed()
+            && let Some(response) = response
+        {
+            // link is detached by remote already
+            self.confirm_receiver_link(response);
+        } else {
+            let _ = self.close_with_error(err);
+        }
+    }
+
     pub(crate) fn confirm_receiver_link(&self, response: Attach) {
         let inner = self.inner.get_mut();
         let size = self.inner.get_ref().max_message_size;
@@ -269,6 +281,10 @@ impl ReceiverLinkInner {
         &self.name
     }
 
+    pub(crate) fn is_closed(&self) -> bool {
+        self.closed
+    }
+
     pub(crate) fn detached(&mut self) {
         // drop pending transfers
         self.queue.clear();
diff --git a/src/session.rs b/src/session.rs
index 61b5e01..4874821 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -247,7 +247,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    OpeningRemote(SenderLink),
     Opening(
         Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
         SequenceNo,
@@ -406,7 +406,9 @@ impl SessionInner {
                         let _ = tx.send(Err(err.clone()));
                     }
                 }
-                Either::Left(SenderLinkState::OpeningRemote) => (),
+                Either::Left(SenderLinkState::OpeningRemote(link)) => {
+                    link.inner.get_mut().remote_detached(err.clone());
+                }
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
@@ -459,10 +461,18 @@ impl SessionInner {
     }
 
     /// Initialize creation of remote sender link
-    pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
-        let id = self
-            .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+    pub(crate) fn new_remote_sender(
+        &mut self,
+        cell: Cell<SessionInner>,
+        attach: &Attach,
+    ) -> (SenderLink, Attach) {
+        let entry = self.links.vacant_entry();
+        let id = entry.key();
+        let link = SenderLink::new(Cell::new(SenderLinkInner::with(id, attach, cell)));
+        entry.insert(Either::Left(SenderLinkState::OpeningRemote(link.clone())));
+
+        // remote could use handle before attach is confirmed
+        self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
@@ -481,7 +491,7 @@ impl SessionInner {
             properties: None,
         }));
 
-        (id, attach)
+        (link, attach)
     }
 
     /// Open sender link
@@ -528,34 +538,61 @@ impl SessionInner {
         &mut self,
         attach: &Attach,
         mut response: Attach,
-        link: Cell<SenderLinkInner>,
-    ) -> SenderLink {
-        log::trace!(
-            "{}: Remote sender link attached: {:?}",
-            self.tag(),
-            attach.name()
-        );
+        link: &Cell<SenderLinkInner>,
+    ) {
         let token = link.id;
+        let Some(Either::Left(state @ SenderLinkState::OpeningRemote(_))) =
+            self.links.get_mut(token)
+        else {
+            // session is ended already
+            log::trace!(
+                "{}: Remote sender link is gone: {:?}",
+                self.sink.tag(),
+                attach.name()
+            );
+            return;
+        };
 
-        if let Some(source) = attach.source()
-            && let Some(ref addr) = source.address
-        {
-            self.links_by_name.insert(addr.clone(), token);
-        }
+        let closed = link.closed;
+        if closed {
+            *state = SenderLinkState::Closing(None);
+        } else {
+            log::trace!(
+                "{}: Remote sender link attached: {:?}",
+                self.sink.tag(),
+                attach.name()
+            );
+            *state = SenderLinkState::Established(EstablishedSenderLink::new(link.clone()));
 
-        self.remote_handles.insert(attach.handle(), token);
-        *self
-            .links
-            .get_mut(token)
-            .expect("new remote sender entry must exist") = Either::Left(
-            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-        );
+            if let Some(source) = attach.source()
+                && let Some(ref addr) = source.address
+            {
+                self.links_by_name.insert(addr.clone(), token);
+            }
+        }
 
         *response.handle_mut() = token as Handle;
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
-
         self.post_frame(response.into());
-        SenderLink::new(link)
+
+        if closed {
+            self.detach_closed_link(token, link.error.is_some(), None);
+        }
+    }
+
+    /// Detach link that is closed before it is confirmed
+    fn detach_closed_link(&mut self, token: usize, remote: bool, error: Option<Error>) {
+        let detach = Detach(Box::new(codec::DetachInner {
+            handle: token as Handle,
+            closed: true,
+            error,
+        }));
+        self.post_frame(detach.into());
+
+        // otherwise remote confirms detach
+        if remote {
+            self.remove_link(token);
+        }
     }
 
     /// Detach sender link
@@ -597,12 +634,10 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
+                SenderLinkState::OpeningRemote(link) => {
+                    // link is going to be detached during confirmation
+                    link.inner.get_mut().closed = true;
                     let _ = tx.send(Ok(()));
-                    log::error!(
-                        "{}: Unexpected sender link state: opening remote - {id}",
-                        self.tag()
-                    );
                 }
                 SenderLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
@@ -629,11 +664,18 @@ impl SessionInner {
         error: Option<Error>,
     ) {
         let token = link.id;
+        let Some(Either::Left(state @ SenderLinkState::OpeningRemote(_))) =
+            self.links.get_mut(token)
+        else {
+            // session is ended already
+            return;
+        };
+        *state = SenderLinkState::Closing(None);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
             handle: token as Handle,
-            role: attach.0.role,
+            role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
             source: None,
@@ -648,16 +690,9 @@ impl SessionInner {
         }));
         self.post_frame(attach.into());
 
-        let detach = Detach(Box::new(codec::DetachInner {
-            handle: token as Handle,
-            closed: true,
-            error,
-        }));
-        self.post_frame(detach.into());
-
-        if self.links.contains(token) {
-            self.links.remove(token);
-        }
+        let remote = link.error.is_some();
+        link.get_mut().closed = true;
+        self.detach_closed_link(token, remote, error);
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -763,8 +798,14 @@ impl SessionInner {
             && let Some((l, _)) = l.take()
         {
             *response.max_message_size_mut() = max_message_size;
-            *link = ReceiverLinkState::Established(EstablishedReceiverLink::new(l));
-            self.post_frame(response.into());
+            if l.get_ref().is_closed() {
+                // remote detached link before confirmation
+                self.post_frame(response.into());
+                self.detach_closed_link(token as usize, true, None);
+            } else {
+                *link = ReceiverLinkState::Established(EstablishedReceiverLink::new(l));
+                self.post_frame(response.into());
+            }
             return;
         }
         // TODO: close session
@@ -782,8 +823,9 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
+                    let mut attach = None;
                     if let Some((inner, source)) = inner.take() {
-                        let attach = Attach(Box::new(codec::AttachInner {
+                        attach = Some(Attach(Box::new(codec::AttachInner {
                             source,
                             max_message_size: None,
                             name: inner.name().clone(),
@@ -798,19 +840,20 @@ impl SessionInner {
                             offered_capabilities: None,
                             desired_capabilities: None,
                             properties: None,
-                        }));
-                        self.post_frame(attach.into());
+                        })));
                     }
                     let detach = Detach(Box::new(codec::DetachInner {
                         closed,
                         error,
                         handle: id,
                     }));
+                    // wait for confirmation from remote
+                    *link = ReceiverLinkState::Closing(None);
+                    if let Some(attach) = attach {
+                        self.post_frame(attach.into());
+                    }
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -829,15 +872,20 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(_) => {
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        closed,
+                        error,
+                        handle: id,
+                    }));
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -871,18 +919,26 @@ impl SessionInner {
         if self.error.is_none() {
             match frame {
                 Frame::Flow(flow) => {
+                    self.handle_flow(&flow);
+
                     // apply link flow
                     if let Some(Either::Left(link)) = flow
                         .handle()
                         .and_then(|h| self.remote_handles.get(&h).copied())
                         .and_then(|h| self.links.get_mut(h))
                     {
-                        if let SenderLinkState::Established(link) = link {
-                            return Ok(Action::Flow((*link).clone(), flow));
+                        match link {
+                            SenderLinkState::Established(link) => {
+                                return Ok(Action::Flow((*link).clone(), flow));
+                            }
+                            SenderLinkState::OpeningRemote(link) => {
+                                return Ok(Action::Flow(link.clone(), flow));
+                            }
+                            SenderLinkState::Opening(..) | SenderLinkState::Closing(_) => {
+                                log::warn!("{}: Received flow frame", self.tag());
+                            }
                         }
-                        log::warn!("{}: Received flow frame", self.tag());
                     }
-                    self.handle_flow(&flow, None);
                     Ok(Action::None)
                 }
                 Frame::Disposition(disp) => {
@@ -1068,12 +1124,13 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
-                        log::warn!(
-                            "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
-                        );
-                        true
+                    SenderLinkState::OpeningRemote(link) => {
+                        // link is going to be detached during confirmation
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        link.inner.get_mut().remote_detached(err);
+                        action = Action::DetachSender(link.clone(), frame);
+                        self.remote_handles.remove(&handle);
+                        false
                     }
                     SenderLinkState::Closing(tx) => {
                         // link is gone, state of unsettled deliveries is unknown
@@ -1094,7 +1151,16 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(item) => {
+                        // link is going to be detached during confirmation
+                        if let Some((link, _)) = item.as_ref() {
+                            let link = ReceiverLink::new(link.clone());
+                            link.remote_detached(frame.0.error.take());
+                            action = Action::DetachReceiver(link, frame);
+                        }
+                        self.remote_handles.remove(&handle);
+                        false
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
@@ -1215,7 +1281,7 @@ impl SessionInner {
         }
     }
 
-    pub(crate) fn handle_flow(&mut self, flow: &Flow, link: Option<&SenderLink>) {
+    fn handle_flow(&mut self, flow: &Flow) {
         // # AMQP1.0 2.5.6
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
@@ -1266,11 +1332,6 @@ impl SessionInner {
             }));
             self.post_frame(flow.into());
         }
-
-        // apply link flow
-        if let Some(link) = link {
-            link.inner.get_mut().apply_flow(flow);
-        }
     }
 
     pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
-- 
2.43.0


From d8b114d5269c10a39139e0a71b9ec0af3cc88954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 27/41] fix: control frames must be handled in order

---
 src/dispatcher.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index d52be1f..0a9b2ae 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -118,6 +118,20 @@ where
         // process control frame
         let mut idx = 0;
         while futs.len() > idx {
+            // flow frames must be applied in order, after link is attached
+            if let ControlFrameKind::Flow(_, link) = futs[idx].0.kind()
+                && futs[..idx].iter().any(|(frame, _)| match frame.kind() {
+                    ControlFrameKind::Flow(_, other)
+                    | ControlFrameKind::AttachSender(_, _, other) => {
+                        std::ptr::eq(link.inner.get_ref(), other.inner.get_ref())
+                    }
+                    _ => false,
+                })
+            {
+                idx += 1;
+                continue;
+            }
+
             let item = &mut futs[idx];
             let res = match Pin::new(&mut item.1).poll(cx) {
                 Poll::Pending => {
@@ -126,7 +140,7 @@ where
                 }
                 Poll::Ready(res) => res,
             };
-            let (frame, _) = futs.swap_remove(idx);
+            let (frame, _) = futs.remove(idx);
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From 1d17cdebacd10edae03713b3dc4c14e3c9403600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 28/41] fix: router handler must stay alive while it is in use

---
 src/router.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index f68e36c..2e2d7a9 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -97,6 +97,12 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                         inner.handlers.insert(link.receiver().clone(), None);
 
                         match hnd.create(link).await {
+                            Ok(srv) if rcv_link.is_closed() => {
+                                log::trace!("Link {} is detached", rcv_link.name());
+                                self.0.get_mut().handlers.remove(&rcv_link);
+                                Pipeline::new(srv).shutdown().await;
+                                Ok(())
+                            }
                             Ok(srv) => {
                                 log::trace!("Handler service is created for {}", rcv_link.name());
                                 self.0
@@ -114,6 +120,7 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                                     "Failed to create link service for {} err: {e:?}",
                                     rcv_link.name()
                                 );
+                                self.0.get_mut().handlers.remove(&rcv_link);
                                 Err(e)
                             }
                         }
@@ -199,7 +206,8 @@ async fn service_call<S>(
     tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
-    if let Some(Some(srv)) = inner.handlers.get(&link) {
+    // handler could be removed while call is in progress
+    if let Some(Some(srv)) = inner.handlers.get(&link).cloned() {
         // check readiness
         if let Err(e) = srv.ready().await {
             log::trace!("Service readiness check failed: {e:?}");
-- 
2.43.0


From 15708c80622c46782a285cff96c42ed893803dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 29/41] fix: complete sasl challenge exchange, reject
 unexpected sasl frames and failed authentication

---
 src/client/connector.rs |  8 ++++++--
 src/server/sasl.rs      | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..3e6277e 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -192,17 +192,21 @@ async fn connect_sasl_inner(
     let codec = AmqpCodec::<SaslFrame>::new();
 
     // processing sasl-mechanisms
-    let _ = io
+    let frame = io
         .recv(&codec)
         .await
         .map_err(ConnectError::from)?
         .ok_or(ConnectError::Disconnected)?;
+    if !matches!(frame.body, SaslFrameBody::SaslMechanisms(_)) {
+        log::trace!("{}: Unexpected sasl frame: {frame:?}", io.tag());
+        return Err(Error::from(ConnectError::Disconnected));
+    }
 
     let initial_response =
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
     let sasl_init = SaslInit {
-        hostname: config.hostname.clone(),
+        hostname: hostname.clone().or_else(|| config.hostname.clone()),
         mechanism: Symbol::from("PLAIN"),
         initial_response: Some(initial_response),
     };
diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..ddf3aa9 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -164,6 +164,7 @@ impl SaslInit {
             .map_err(HandshakeError::from)?;
 
         Ok(SaslSuccess {
+            code,
             state,
             local_config,
         })
@@ -211,12 +212,9 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
+            code,
             state,
             local_config,
         })
@@ -224,6 +222,7 @@ impl SaslResponse {
 }
 
 pub struct SaslSuccess {
+    code: SaslCode,
     state: IoBoxed,
     local_config: Cfg<AmqpServiceConfig>,
 }
@@ -236,6 +235,10 @@ impl SaslSuccess {
 
     /// Wait for connection open frame
     pub async fn open(self) -> Result<HandshakeAmqpOpened, HandshakeError> {
+        // connection cannot be opened if authentication is failed
+        if self.code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(self.code));
+        }
         let state = self.state;
 
         let protocol = state
-- 
2.43.0


From 25b90236f78857d18f7a1ccc86d9e32bcc5b243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 30/41] fix: keep connection alive if remote idle timeout is
 shorter than two seconds, channel-max is the highest channel

---
 src/client/connection.rs | 4 ++--
 src/connection.rs        | 2 +-
 src/lib.rs               | 9 ++++-----
 src/server/handshake.rs  | 8 ++++----
 src/server/service.rs    | 2 +-
 5 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/connection.rs b/src/connection.rs
index 70782d5..2d63aca 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -599,7 +599,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize || token > inner.remote_channel_max as usize {
+        if token > inner.channel_max as usize || token > inner.remote_channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..b9811b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,11 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
+    pub(crate) fn timeout_remote(&self) -> Millis {
         if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
+            Millis((self.idle_time_out - (self.idle_time_out >> 2)).max(2))
         } else {
-            Seconds::ZERO
+            Millis::ZERO
         }
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..bea486a 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From 5f24741347b9aa434b38537f5748247ddfdb45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 31/41] fix: error details and attach frames must fit into max
 frame size

---
 src/connection.rs | 74 +++++++++++++++++++++++++++++++++++++++++++----
 src/session.rs    | 18 ++++++++++++
 2 files changed, 87 insertions(+), 5 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 2d63aca..c8aabc5 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,18 +1,21 @@
 use std::{fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
 
+use ntex_bytes::ByteString;
 use ntex_io::{IoConfig, IoRef};
 use ntex_service::cfg::Cfg;
 use ntex_util::channel::{condition::Condition, condition::Waiter, oneshot};
 use ntex_util::{HashMap, future::Ready};
 
-use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Role};
-use crate::codec::{AmqpCodec, AmqpFrame, types};
+use crate::codec::protocol::{self as codec, Begin, Close, DeliveryState, End, Error, Frame, Role};
+use crate::codec::{AmqpCodec, AmqpFrame, Encode, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
 
+const FRAME_HEADER: usize = 8;
+
 pub struct Connection(ConnectionRef);
 
 #[derive(Clone)]
@@ -239,11 +242,22 @@ impl ConnectionInner {
         #[cfg(feature = "frame-trace")]
         log::trace!("{}: outgoing: {:#?}", self.io.tag(), frame);
 
+        let frame = fit_error(frame, self.max_frame_size as usize);
         if let Err(e) = self.io.encode(frame, &self.codec) {
             self.set_error(e.into());
         }
     }
 
+    /// Check if frame fits into max frame size of the remote
+    pub(crate) fn check_size(&self, frame: &Frame) -> Result<(), AmqpProtocolError> {
+        let max = self.max_frame_size as usize;
+        if max != 0 && frame.encoded_size() + FRAME_HEADER > max {
+            Err(AmqpProtocolError::BodyTooLarge)
+        } else {
+            Ok(())
+        }
+    }
+
     pub(crate) fn register_remote_session(
         &mut self,
         remote_channel_id: u16,
@@ -491,6 +505,53 @@ impl ConnectionInner {
     }
 }
 
+/// Details of an error are optional, cut them if frame exceeds max frame size
+fn fit_error(frame: AmqpFrame, max: usize) -> AmqpFrame {
+    let error = match frame.performative() {
+        Frame::Detach(frm) => frm.error().is_some(),
+        Frame::End(frm) => frm.error.is_some(),
+        Frame::Close(frm) => frm.error.is_some(),
+        Frame::Disposition(frm) => frm.state().is_some(),
+        _ => false,
+    };
+    let size = if error && max != 0 {
+        frame.encoded_size()
+    } else {
+        0
+    };
+    if size <= max {
+        return frame;
+    }
+
+    let mut extra = size - max;
+    let (channel, mut frame) = frame.into_parts();
+    let error = match &mut frame {
+        Frame::Detach(frm) => frm.0.error.as_mut(),
+        Frame::End(frm) => frm.error.as_mut(),
+        Frame::Close(frm) => frm.error.as_mut(),
+        Frame::Disposition(frm) => match frm.0.state {
+            Some(DeliveryState::Rejected(ref mut st)) => st.error.as_mut(),
+            _ => None,
+        },
+        _ => None,
+    };
+    if let Some(error) = error {
+        if let Some(info) = error.0.info.take() {
+            extra = extra.saturating_sub(info.encoded_size());
+        }
+        if extra > 0
+            && let Some(text) = error.0.description.take()
+        {
+            let mut len = text.len().saturating_sub(extra);
+            while !text.is_char_boundary(len) {
+                len -= 1;
+            }
+            error.0.description = Some(ByteString::from(&text[..len]));
+        }
+    }
+    AmqpFrame::new(channel, frame)
+}
+
 impl fmt::Debug for ConnectionRef {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
         fmt.debug_struct("ConnectionRef").finish()
@@ -603,8 +664,6 @@ async fn open_session(
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-            entry.insert(SessionState::Opening(Some(tx), con.clone()));
-
             let begin = Begin(Box::new(codec::BeginInner {
                 offered_capabilities,
                 desired_capabilities,
@@ -615,7 +674,12 @@ async fn open_session(
                 outgoing_window: u32::MAX,
                 handle_max: u32::MAX,
             }));
-            inner.post_frame(AmqpFrame::new(token as u16, begin.into()));
+            let frame = Frame::Begin(begin);
+            if let Err(err) = con.get_ref().check_size(&frame) {
+                return Err(err);
+            }
+            entry.insert(SessionState::Opening(Some(tx), con.clone()));
+            inner.post_frame(AmqpFrame::new(token as u16, frame));
             let _ = inner;
 
             rx.await.map_err(|_| AmqpProtocolError::Disconnected)
diff --git a/src/session.rs b/src/session.rs
index 4874821..ba0b290 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -360,6 +360,14 @@ impl SessionInner {
         self.flags.intersects(Flags::ENDED | Flags::ENDING)
     }
 
+    /// Attach frame cannot be larger than max frame size
+    fn check_attach(&self, frame: &Attach) -> Result<(), AmqpProtocolError> {
+        let mut frame = frame.clone();
+        // handle is not known yet
+        frame.0.handle = Handle::MAX;
+        self.sink.0.get_ref().check_size(&frame.into())
+    }
+
     /// Session error, if session is ended
     pub(crate) fn error(&self) -> Option<AmqpProtocolError> {
         self.error.clone()
@@ -514,6 +522,11 @@ impl SessionInner {
             return rx;
         }
 
+        if let Err(err) = self.check_attach(&frame) {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
         entry.insert(Either::Left(SenderLinkState::Opening(
@@ -770,6 +783,11 @@ impl SessionInner {
             return rx;
         }
 
+        if let Err(err) = self.check_attach(&frame) {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
-- 
2.43.0


From b0a82054af374cb25047ad1c461de8d08034b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 32/41] fix: pass error of remote receiver detach to control
 service

---
 src/session.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index ba0b290..fe0a2ab 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1084,7 +1084,7 @@ impl SessionInner {
 
     #[allow(clippy::too_many_lines)]
     /// Handle `Detach` frame.
-    pub(crate) fn handle_detach(&mut self, mut frame: Detach) -> Action {
+    pub(crate) fn handle_detach(&mut self, frame: Detach) -> Action {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
@@ -1173,7 +1173,7 @@ impl SessionInner {
                         // link is going to be detached during confirmation
                         if let Some((link, _)) = item.as_ref() {
                             let link = ReceiverLink::new(link.clone());
-                            link.remote_detached(frame.0.error.take());
+                            link.remote_detached(frame.0.error.clone());
                             action = Action::DetachReceiver(link, frame);
                         }
                         self.remote_handles.remove(&handle);
@@ -1194,7 +1194,7 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Established(link) => {
-                        let error = frame.0.error.take();
+                        let error = frame.0.error.clone();
 
                         // drop unsettled transfers
                         let err = AmqpProtocolError::LinkDetached(error.clone());
-- 
2.43.0


From dee681116f6d645d1b6c9c2d66fc10fa89d97e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 33/41] fix: outcome of settled delivery is final

---
 src/delivery.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index a5c9f4d..e28b8fe 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -284,6 +284,10 @@ impl DeliveryInner {
     }
 
     pub(crate) fn handle_disposition(&mut self, disp: &Disposition) {
+        // outcome of settled delivery is final
+        if self.settled {
+            return;
+        }
         if disp.settled() {
             self.settled = true;
         }
-- 
2.43.0


From b2f92cecf9be408ec7da4a4aed71660921777a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:58 +0000
Subject: [PATCH 34/41] fix: delivery keeps error of its own link after handle
 is reused

---
 src/delivery.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index e28b8fe..47b4310 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -279,7 +279,11 @@ impl DeliveryInner {
     }
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
-        self.error = Some(error);
+        // handle of detached link could be used by other link,
+        // error of that link is not related to this delivery
+        if self.error.is_none() {
+            self.error = Some(error);
+        }
         self.notify();
     }
 
-- 
2.43.0


From cf11fb2ce16a2bf056e5d245e81e91faafc7011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 35/41] fix: transfers are sent in the order they were issued

---
 src/delivery.rs |  6 ++--
 src/sndlink.rs  | 76 +++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 47b4310..f47a271 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -8,7 +8,8 @@ use ntex_amqp_codec::types::{Str, Symbol};
 use ntex_bytes::Bytes;
 use ntex_util::channel::pool;
 
-use crate::{cell::Cell, error::AmqpProtocolError, session::Session, sndlink::SenderLinkInner};
+use crate::sndlink::{SenderLinkInner, TransferTicket};
+use crate::{cell::Cell, error::AmqpProtocolError, session::Session};
 
 bitflags::bitflags! {
     #[derive(Copy, Clone, Debug)]
@@ -366,10 +367,11 @@ impl TransferBuilder {
                 return Err(AmqpProtocolError::BodyTooLarge);
             }
 
+            let ticket = TransferTicket::new(&self.sender);
             let (id, tag) = self
                 .sender
                 .get_mut()
-                .send(self.data, self.tag, self.settled, self.format)
+                .send(ticket, self.data, self.tag, self.settled, self.format)
                 .await?;
 
             Ok(Delivery {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index dc576c4..770bdac 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -26,7 +26,8 @@ pub(crate) struct SenderLinkInner {
     initial_delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
-    pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
+    pending_transfers: VecDeque<PendingTransfer>,
+    next_transfer: u64,
     pub(crate) error: Option<AmqpProtocolError>,
     pub(crate) closed: bool,
     pub(crate) max_message_size: Option<u32>,
@@ -34,6 +35,42 @@ pub(crate) struct SenderLinkInner {
     on_credit: condition::Condition,
 }
 
+struct PendingTransfer {
+    id: u64,
+    tx: Option<pool::Sender<Result<(), AmqpProtocolError>>>,
+}
+
+/// Place of a transfer in the queue of the link
+pub(crate) struct TransferTicket {
+    id: u64,
+    link: Cell<SenderLinkInner>,
+}
+
+impl TransferTicket {
+    pub(crate) fn new(link: &Cell<SenderLinkInner>) -> Self {
+        let inner = link.get_mut();
+        let id = inner.next_transfer;
+        inner.next_transfer = id.wrapping_add(1);
+        inner
+            .pending_transfers
+            .push_back(PendingTransfer { id, tx: None });
+        TransferTicket {
+            id,
+            link: link.clone(),
+        }
+    }
+}
+
+impl Drop for TransferTicket {
+    fn drop(&mut self) {
+        let inner = self.link.get_mut();
+        if let Some(idx) = inner.pending_transfers.iter().position(|p| p.id == self.id) {
+            inner.pending_transfers.remove(idx);
+        }
+        inner.wake_pending();
+    }
+}
+
 impl std::fmt::Debug for SenderLink {
     fn fmt(&self, fmt: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         fmt.debug_tuple("SenderLink")
@@ -200,6 +237,7 @@ impl SenderLinkInner {
             remote_handle: handle,
             link_credit: 0,
             pending_transfers: VecDeque::new(),
+            next_transfer: 0,
             error: None,
             closed: false,
             delivery_tag: 0,
@@ -255,11 +293,24 @@ impl SenderLinkInner {
 
     /// Fail transfers which wait for link credit
     pub(crate) fn drop_pending(&mut self, err: &AmqpProtocolError) {
-        for tx in self.pending_transfers.drain(..) {
+        for tx in self
+            .pending_transfers
+            .iter_mut()
+            .filter_map(|p| p.tx.take())
+        {
             let _ = tx.send(Err(err.clone()));
         }
     }
 
+    /// Transfers are sent in the order they were issued
+    fn wake_pending(&mut self) {
+        if self.link_credit > 0
+            && let Some(tx) = self.pending_transfers.front_mut().and_then(|p| p.tx.take())
+        {
+            let _ = tx.send(Ok(()));
+        }
+    }
+
     pub(crate) fn close(
         &mut self,
         error: Option<Error>,
@@ -314,10 +365,8 @@ impl SenderLinkInner {
 
             self.link_credit = new_credit;
 
-            // credit became available => drain pending_transfers
-            while let Some(tx) = self.pending_transfers.pop_front() {
-                let _ = tx.send(Ok(()));
-            }
+            // credit became available => continue with pending_transfers
+            self.wake_pending();
 
             // notify available credit waiters
             if self.link_credit > 0 {
@@ -328,6 +377,7 @@ impl SenderLinkInner {
 
     pub(crate) async fn send<T: Into<TransferBody>>(
         &mut self,
+        ticket: TransferTicket,
         body: T,
         tag: Option<Bytes>,
         settled: bool,
@@ -348,7 +398,11 @@ impl SenderLinkInner {
                     return Err(AmqpProtocolError::LinkDetached(None));
                 }
 
-                if self.link_credit == 0 || !self.pending_transfers.is_empty() {
+                let is_first = self
+                    .pending_transfers
+                    .front()
+                    .is_none_or(|p| p.id == ticket.id);
+                if self.link_credit == 0 || !is_first {
                     log::trace!(
                         "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
                         self.session.tag(),
@@ -359,7 +413,13 @@ impl SenderLinkInner {
                         self.pending_transfers.len()
                     );
                     let (tx, rx) = self.session.inner.get_ref().pool_credit.channel();
-                    self.pending_transfers.push_back(tx);
+                    if let Some(p) = self
+                        .pending_transfers
+                        .iter_mut()
+                        .find(|p| p.id == ticket.id)
+                    {
+                        p.tx = Some(tx);
+                    }
                     rx.await
                         .map_err(|_| AmqpProtocolError::ConnectionDropped)
                         .and_then(|v| v)?;
-- 
2.43.0


From 2b5da63bfd42ce1ffa39f8f1108423785a6b6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 36/41] fix: report control frames of a link in order of
 arrival

---
 src/dispatcher.rs | 50 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 0a9b2ae..6b2a2ff 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -11,12 +11,29 @@ use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame};
 use crate::error::{AmqpDispatcherError, AmqpProtocolError, Error};
 use crate::{ControlFrame, ControlFrameKind, ReceiverLink, connection::Connection, types};
 
+/// Control service call, result is kept until it can be applied
+struct ControlCall<Ctl: Service<ControlFrame>> {
+    frame: ControlFrame,
+    fut: PipelineCall<Ctl, ControlFrame>,
+    result: Option<Result<(), Ctl::Error>>,
+}
+
+impl<Ctl: Service<ControlFrame>> ControlCall<Ctl> {
+    fn new(frame: ControlFrame, fut: PipelineCall<Ctl, ControlFrame>) -> Self {
+        ControlCall {
+            frame,
+            fut,
+            result: None,
+        }
+    }
+}
+
 /// Amqp server dispatcher service.
 pub(crate) struct Dispatcher<Sr: Service<types::Message>, Ctl: Service<ControlFrame>> {
     sink: Connection,
     service: PipelineBinding<Sr, types::Message>,
     ctl_service: PipelineBinding<Ctl, ControlFrame>,
-    ctl_fut: cell::RefCell<Vec<(ControlFrame, PipelineCall<Ctl, ControlFrame>)>>,
+    ctl_fut: cell::RefCell<Vec<ControlCall<Ctl>>>,
     ctl_error: cell::Cell<Option<AmqpDispatcherError>>,
     ctl_error_waker: LocalWaker,
     idle_sleep: Sleep,
@@ -50,7 +67,7 @@ where
 
     fn call_control_service(&self, frame: ControlFrame) {
         let fut = self.ctl_service.call(frame.clone());
-        self.ctl_fut.borrow_mut().push((frame, fut));
+        self.ctl_fut.borrow_mut().push(ControlCall::new(frame, fut));
         self.sink.get_control_queue().waker.wake();
     }
 }
@@ -112,35 +129,38 @@ where
         // enqueue pending control frames
         queue.pending.borrow_mut().drain(..).for_each(|frame| {
             let fut = self.ctl_service.call(frame.clone());
-            futs.push((frame, fut));
+            futs.push(ControlCall::new(frame, fut));
         });
 
         // process control frame
         let mut idx = 0;
         while futs.len() > idx {
+            let item = &mut futs[idx];
+            if item.result.is_none()
+                && let Poll::Ready(res) = Pin::new(&mut item.fut).poll(cx)
+            {
+                item.result = Some(res);
+            }
+
             // flow frames must be applied in order, after link is attached
-            if let ControlFrameKind::Flow(_, link) = futs[idx].0.kind()
-                && futs[..idx].iter().any(|(frame, _)| match frame.kind() {
+            let blocked = if let ControlFrameKind::Flow(_, link) = futs[idx].frame.kind() {
+                futs[..idx].iter().any(|item| match item.frame.kind() {
                     ControlFrameKind::Flow(_, other)
                     | ControlFrameKind::AttachSender(_, _, other) => {
                         std::ptr::eq(link.inner.get_ref(), other.inner.get_ref())
                     }
                     _ => false,
                 })
-            {
+            } else {
+                false
+            };
+            if blocked || futs[idx].result.is_none() {
                 idx += 1;
                 continue;
             }
 
-            let item = &mut futs[idx];
-            let res = match Pin::new(&mut item.1).poll(cx) {
-                Poll::Pending => {
-                    idx += 1;
-                    continue;
-                }
-                Poll::Ready(res) => res,
-            };
-            let (frame, _) = futs.remove(idx);
+            let ControlCall { frame, result, .. } = futs.remove(idx);
+            let Some(res) = result else { continue };
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From 7270da24ed51f56aab785293227ecd318c2b3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 37/41] fix: credit set before link is attached must be
 announced after the attach

---
 src/dispatcher.rs |  5 ++++-
 src/rcvlink.rs    | 21 ++++++++++++++++++++-
 src/session.rs    |  3 +++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 6b2a2ff..4ee670e 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -386,7 +386,10 @@ where
                             link.reject(Some(response), Error::from(err));
                         } else {
                             link.confirm_receiver_link(response);
-                            link.set_link_credit(50);
+                            // credit could be set by service
+                            if link.credit() == 0 {
+                                link.set_link_credit(50);
+                            }
                         }
                     });
                 }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 3781db9..94a5100 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -27,6 +27,8 @@ pub(crate) struct ReceiverLinkInner {
     remote_handle: Handle,
     session: Session,
     closed: bool,
+    /// attach frame has been sent
+    attached: bool,
     reader_task: LocalWaker,
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
@@ -250,6 +252,7 @@ impl ReceiverLinkInner {
             remote_handle,
             session: Session::new(session),
             closed: false,
+            attached: false,
             queue: VecDeque::with_capacity(4),
             credit: 0,
             error: None,
@@ -327,10 +330,26 @@ impl ReceiverLinkInner {
         if credit > used {
             self.delivery_limit = self.delivery_count.wrapping_add(credit);
         }
+
+        // flow for the link could be sent only after attach
+        if self.attached {
+            self.send_link_flow();
+        }
+    }
+
+    /// Attach frame is sent, announce credit if it is set already
+    pub(crate) fn set_attached(&mut self) {
+        self.attached = true;
+        if self.credit != 0 {
+            self.send_link_flow();
+        }
+    }
+
+    fn send_link_flow(&mut self) {
         self.session
             .inner
             .get_mut()
-            .rcv_link_flow(self.handle, self.delivery_count, credit);
+            .rcv_link_flow(self.handle, self.delivery_count, self.credit);
     }
 
     #[allow(clippy::unnecessary_unwrap)]
diff --git a/src/session.rs b/src/session.rs
index fe0a2ab..9ab055d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -793,6 +793,7 @@ impl SessionInner {
 
         let mut inner = ReceiverLinkInner::new(cell, token as u32, token as u32, &frame);
         inner.max_message_size = frame.max_message_size().unwrap_or(0);
+        inner.set_attached();
         let inner = Cell::new(inner);
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
@@ -821,8 +822,10 @@ impl SessionInner {
                 self.post_frame(response.into());
                 self.detach_closed_link(token as usize, true, None);
             } else {
+                let inner = l.clone();
                 *link = ReceiverLinkState::Established(EstablishedReceiverLink::new(l));
                 self.post_frame(response.into());
+                inner.get_mut().set_attached();
             }
             return;
         }
-- 
2.43.0


From e95b0d7051c00ab974d4c764de4ceead9fdd722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 38/41] fix: keep-alive frames must be sent repeatedly while
 connection is idle

---
 src/dispatcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 4ee670e..c655a66 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -174,7 +174,7 @@ where
         }
 
         // handle idle timeout
-        if self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
+        while self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
             log::trace!(
                 "{}: Send keep-alive ping, timeout: {:?} secs",
                 self.sink.tag(),
-- 
2.43.0


From bc65b1863bf17b49ba7594a9461ea822d55561d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:31 +0000
Subject: [PATCH 39/41] fix: shutdown must complete while control service waits
 for running calls

---
 src/dispatcher.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index c655a66..a69c176 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -192,10 +192,18 @@ where
             .0
             .get_mut()
             .set_error(AmqpProtocolError::Disconnected);
-        let _ = self
+        // control service may need to complete running calls before it becomes ready
+        let mut fut = self
             .ctl_service
-            .call(ControlFrame::new_kind(ControlFrameKind::Closed))
-            .await;
+            .call(ControlFrame::new_kind(ControlFrameKind::Closed));
+        let _ = poll_fn(|cx| {
+            let _ = self.ctl_service.poll_ready(cx);
+            self.ctl_fut.borrow_mut().retain_mut(|item| {
+                item.result.is_none() && Pin::new(&mut item.fut).poll(cx).is_pending()
+            });
+            Pin::new(&mut fut).poll(cx)
+        })
+        .await;
 
         self.service.shutdown().await;
         self.ctl_service.shutdown().await;
-- 
2.43.0


From c1f8f7235e34ecb6d3ad96de85aebb8358fd3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 40/41] fix: error without info still takes a byte for it

---
 src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index c8aabc5..92c9b34 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -537,7 +537,8 @@ fn fit_error(frame: AmqpFrame, max: usize) -> AmqpFrame {
     };
     if let Some(error) = error {
         if let Some(info) = error.0.info.take() {
-            extra = extra.saturating_sub(info.encoded_size());
+            // null is encoded instead
+            extra = extra.saturating_sub(info.encoded_size() - 1);
         }
         if extra > 0
             && let Some(text) = error.0.description.take()
-- 
2.43.0


From cc5f03d614ed85a208a93ef3e2966d87d9f0b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:18 +0000
Subject: [PATCH 41/41] fix: aborted delivery does not use up link credit

---
 src/rcvlink.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 94a5100..866db6a 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -369,9 +369,11 @@ impl ReceiverLinkInner {
             Action::None
         } else {
             if !transfer.0.more || transfer.0.aborted {
-                self.credit = self.credit.saturating_sub(1);
                 self.delivery_count = self.delivery_count.wrapping_add(1);
             }
+            if !transfer.0.more && !transfer.0.aborted {
+                self.credit = self.credit.saturating_sub(1);
+            }
 
             // aborted delivery must be discarded, it is settled by the sender
             if transfer.aborted() {
@@ -380,6 +382,8 @@ impl ReceiverLinkInner {
                 {
                     delivery.remote_settled();
                 }
+                // application never sees this delivery, its credit could be used again
+                self.set_link_credit(self.credit);
                 return Action::None;
             }
 
-- 
2.43.0

