From bdfd0cef8641d2caa28b0662bfcfbcf83a6d1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 01/12] fix: place method bits 4..=11 at their wire positions
 when encoding a message type

---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From 3e22cb2fdd2bdf57c51f8b0755b3fb6a8d08f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 02/12] fix: read the CHANGE-REQUEST flags from the bits RFC
 5780 assigns to them

---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..7f8aea0 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From e2c9a398740e8d99867e016ed1c002a6c86f83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 03/12] fix: encode the port of RESPONSE-PORT instead of always
 zero

---
 src/rfc5780/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 7f8aea0..efdabcc 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,6 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(ResponsePortEncoder, ResponsePort, |item: Self::Item| {
+    u32::from(item.0) << 16
+});
-- 
2.43.0


From 0dca1d92a77fa58199d1aad86c32ad21ea195ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 04/12] fix: discard the half-decoded attributes of a broken
 message before the next message

---
 src/message.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.rs b/src/message.rs
index c70a474..7bcf939 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -357,6 +357,7 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         self.is_eos = false;
         if let Some(e) = self.last_error.take() {
+            self.inner = Default::default();
             return Err(track!(e));
         }
         track!(self.inner.finish_decoding())
-- 
2.43.0


From 16609174102f93d24423a8ab97676205490c08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 05/12] fix: take every header field before rejecting a message
 type, so that the decoder stays usable

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 7bcf939..92ae0ef 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -300,10 +300,10 @@ impl Decode for MessageHeaderDecoder {
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let message_type = track!(self.message_type.finish_decoding())?;
-        let message_type = track!(Type::from_u16(message_type))?;
         let message_len = track!(self.message_len.finish_decoding())?;
         let magic_cookie = track!(self.magic_cookie.finish_decoding())?;
         let transaction_id = TransactionId::new(track!(self.transaction_id.finish_decoding())?);
+        let message_type = track!(Type::from_u16(message_type))?;
         track!(self.check_magic_cookie(magic_cookie); message_type, message_len, transaction_id)?;
         Ok((message_type, message_len, transaction_id))
     }
-- 
2.43.0


From 18899c1babc3c1d42358494a39138aa8a2f61fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 06/12] fix: do not overflow when computing the fingerprint of
 a message close to 64 KiB

---
 src/rfc5389/attributes.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..aa988eb 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,8 +251,9 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
-        BigEndian::write_u16(&mut bytes[2..4], final_len);
+        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
+        track_assert!(final_len < 0x10000, ErrorKind::InvalidInput; final_len);
+        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
     }
-- 
2.43.0


From 41ffc7e8f6139bfcba96bbaa24185fef2c631e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 07/12] fix: do not truncate the message length a message
 integrity is computed over

---
 src/rfc5389/attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index aa988eb..1b63acc 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -463,6 +463,7 @@ impl MessageIntegrity {
     fn message_into_bytes<A: Attribute>(message: Message<A>) -> Result<Vec<u8>> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message))?;
         let adjusted_len = bytes.len() - 20 /*msg header*/+ 4 /*attr header*/ + 20 /*hmac*/;
+        track_assert!(adjusted_len < 0x10000, ErrorKind::InvalidInput; adjusted_len);
         BigEndian::write_u16(&mut bytes[2..4], adjusted_len as u16);
         Ok(bytes)
     }
-- 
2.43.0


From 4319d924c30a73cc3bb893edf159ddeaef85c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 08/12] fix: reject mobility tickets that exceed the length an
 attribute can carry

---
 src/rfc8016/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc8016/attributes.rs b/src/rfc8016/attributes.rs
index f32ea79..3eef56a 100644
--- a/src/rfc8016/attributes.rs
+++ b/src/rfc8016/attributes.rs
@@ -3,7 +3,7 @@
 //! [RFC 8016]: https://tools.ietf.org/html/rfc8016
 
 use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
-use bytecodec::{ByteCount, Decode, Encode, Eos, Result, SizedEncode, TryTaggedDecode};
+use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
 
 use crate::attribute::{Attribute, AttributeType};
 
@@ -83,7 +83,7 @@ impl MobilityTicket {
     ///
     /// Fails on exceeding length.
     pub fn new(data: Vec<u8>) -> Result<Self> {
-        //track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
+        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
         Ok(MobilityTicket(data))
     }
 
-- 
2.43.0


From d8de69537916754234f60966e10ec833164ef6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 09/12] fix: do not count the attributes of the last message as
 required by the next one

---
 src/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 92ae0ef..06b6c9c 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -459,9 +459,12 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        self.header
-            .requiring_bytes()
-            .add_for_decoding(self.attributes.requiring_bytes())
+        if self.header.is_idle() {
+            self.attributes.requiring_bytes()
+        } else {
+            // The length of the attributes is not known yet (that of the last message may be left).
+            self.header.requiring_bytes()
+        }
     }
 
     fn is_idle(&self) -> bool {
-- 
2.43.0


From 03bf9269ed99745a4606b1f6e589f1d030efb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 10/12] fix: report a message whose last attribute is cut off
 by its length as broken, and do not keep that attribute

---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 06b6c9c..e8ecc61 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,6 +345,10 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
+                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {
+                    // The attributes end in the middle of the last one
+                    self.last_error = Some(track!(ErrorKind::UnexpectedEos.error()).into());
+                }
                 Ok(size) => return Ok(size),
             }
         }
-- 
2.43.0


From a2751634dfefc0c56dab7e99416c25c122ebc550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 11/12] fix: a message encoder could not be used again after it
 refused a message that is too large

---
 src/message.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index e8ecc61..5755a3f 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -516,6 +516,7 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
     }
 
     fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
@@ -535,9 +536,17 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
         track!(self.message_type.start_encoding(message_type.as_u16()))?;
         track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
         track!(self.transaction_id.start_encoding(item.transaction_id))?;
-        track!(self.attributes.start_encoding(item.attributes.into_iter()))?;
+        let started = track!(self.attributes.start_encoding(item.attributes.into_iter()));
+        if started.is_err() {
+            // Discards the refused message, otherwise the encoder could not accept another one.
+            *self = Self::default();
+        }
+        started?;
 
         let message_len = self.attributes.exact_requiring_bytes();
+        if message_len >= 0x10000 {
+            *self = Self::default();
+        }
         track_assert!(
             message_len < 0x10000,
             ErrorKind::InvalidInput,
-- 
2.43.0


From 9a0492abcbec9451aa9e32337f27941239aceb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 12/12] hook: an attribute set over all attributes, behind
 cfg(stun_codec_verif)

---
 src/lib.rs   |  5 +++++
 src/verif.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 96de669..01de344 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,6 +83,7 @@
 //! [RFC 8016]: https://tools.ietf.org/html/rfc8016
 //! [RFC 8656]: https://tools.ietf.org/html/rfc8656
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)] // `stun_codec_verif`
 
 #[macro_use]
 extern crate bytecodec;
@@ -111,6 +112,10 @@ pub mod rfc5780;
 pub mod rfc8016;
 pub mod rfc8656;
 
+// An attribute set as users define them, to be analysed.
+#[cfg(stun_codec_verif)]
+pub mod verif;
+
 mod attribute;
 mod constants;
 mod message;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..787aa56
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,48 @@
+//! Attribute sets that combine the attributes of several RFCs.
+#![allow(missing_docs)]
+use crate::rfc5245::attributes::*;
+use crate::rfc5389::attributes::*;
+use crate::rfc5766::attributes::*;
+use crate::rfc5780::attributes::*;
+use crate::rfc8016::attributes::*;
+use crate::rfc8656::attributes::*;
+
+define_attribute_enums!(
+    Attribute,
+    AttributeDecoder,
+    AttributeEncoder,
+    [
+        MobilityTicket,
+        AdditionalAddressFamily,
+        XorRelayAddress,
+        Lifetime,
+        ErrorCode,
+        IceControlling,
+        ChangeRequest,
+        MessageIntegrity,
+        Username,
+        DontFragment,
+        XorMappedAddress2,
+        UnknownAttributes,
+        ResponsePort,
+        Data,
+        Fingerprint,
+        RequestedAddressFamily,
+        Realm,
+        EvenPort,
+        MappedAddress,
+        UseCandidate,
+        XorPeerAddress,
+        ChannelNumber,
+        Software,
+        OtherAddress,
+        ReservationToken,
+        IceControlled,
+        Nonce,
+        RequestedTransport,
+        XorMappedAddress,
+        ResponseOrigin,
+        Priority,
+        AlternateServer
+    ]
+);
-- 
2.43.0

