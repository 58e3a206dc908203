From 621e44a9d4ea1e12542469822155a7500bbca51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 01/18] fix: return an error instead of panicking on malformed
 signature bytes

Signature::new panics if any of the three most significant bits of the
last byte is set, so a peer could crash the receiver of a
SignatureNoiseMessage.
---
 stratumv2/src/noise/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 9d3400d..28d1602 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -1,7 +1,7 @@
 use crate::codec::{ByteParser, Deserializable, Serializable};
 use crate::error::Result;
 use rand::rngs::OsRng;
-use std::convert::TryInto;
+use std::convert::TryFrom;
 use std::io;
 
 /// AuthorityKeyPair is an ed25519_dalek::Keypair used as the Authentication Authority
@@ -61,6 +61,6 @@ impl Serializable for Signature {
 impl Deserializable for Signature {
     fn deserialize(parser: &mut ByteParser) -> Result<Self> {
         let signature_bytes = parser.next_by(64)?;
-        Ok(Signature::new(signature_bytes.try_into()?))
+        Ok(Signature::try_from(signature_bytes)?)
     }
 }
-- 
2.43.0


From 3b1448079b68eba3453093b55f6acdd96a5a5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 02/18] fix: do not overflow when advancing the byte parser

next_by panicked (or wrapped) when start + step exceeded usize::MAX.
---
 stratumv2/src/codec/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/parser.rs b/stratumv2/src/codec/parser.rs
index 8c7e7e6..858518f 100644
--- a/stratumv2/src/codec/parser.rs
+++ b/stratumv2/src/codec/parser.rs
@@ -14,7 +14,10 @@ impl<'a> ByteParser<'a> {
     }
 
     pub fn next_by(&mut self, step: usize) -> Result<&'a [u8]> {
-        let offset = self.start + step;
+        let offset = self
+            .start
+            .checked_add(step)
+            .ok_or_else(|| Error::ParseError("out of bounds error".into()))?;
 
         let b = self.bytes.get(self.start..offset);
         if b.is_none() {
-- 
2.43.0


From 14bc4994f7473d2bf1957132430ab2308a95e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 03/18] fix: refuse frame payloads of 4 GiB and more

The payload length was truncated to 32 bits before the 24-bit range check,
so a payload of 2^32 + n bytes was framed with the length n.
---
 stratumv2/src/codec/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index b8a16ec..46c3b87 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -1,6 +1,7 @@
 use crate::codec::{serialize, ByteParser, Deserializable, Serializable};
 use crate::error::{Error, Result};
 use crate::types::{MessageType, U24};
+use std::convert::TryFrom;
 use std::io;
 
 /// The CHANNEL_BIT_MASK is used to mask out the MSB to identify if a message
@@ -40,7 +41,7 @@ impl Serializable for Message {
             extension_type |= CHANNEL_BIT_MASK;
         }
 
-        let message_length = U24::new(self.payload.len() as u32)?;
+        let message_length = U24::try_from(self.payload.len())?;
 
         Ok([
             extension_type.serialize(writer)?,
-- 
2.43.0


From 6e5f8387a10716c5fb8c0127ba07e3ad6927a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 04/18] fix: write every byte when a writer accepts only part
 of a buffer

io::Write::write may write short; the serializers ignored its result and
reported success for truncated output.
---
 stratumv2/src/codec/frame.rs      |  8 +++++---
 stratumv2/src/noise/types.rs      |  4 ++--
 stratumv2/src/types/bytes.rs      |  2 +-
 stratumv2/src/types/fixed.rs      |  4 ++--
 stratumv2/src/types/primitives.rs | 10 +++++-----
 stratumv2/src/types/strings.rs    |  2 +-
 6 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index 46c3b87..9985212 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -43,14 +43,16 @@ impl Serializable for Message {
 
         let message_length = U24::try_from(self.payload.len())?;
 
-        Ok([
+        let header_length: usize = [
             extension_type.serialize(writer)?,
             message_type.serialize(writer)?,
             message_length.serialize(writer)?,
-            writer.write(self.payload.as_slice())?,
         ]
         .iter()
-        .sum())
+        .sum();
+        writer.write_all(self.payload.as_slice())?;
+
+        Ok(header_length + self.payload.len())
     }
 }
 
diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 28d1602..5109a38 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -26,7 +26,7 @@ pub type StaticPublicKey = noiseexplorer_nx::types::PublicKey;
 impl Serializable for StaticPublicKey {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.as_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
@@ -52,7 +52,7 @@ pub type Signature = ed25519_dalek::Signature;
 impl Serializable for Signature {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.to_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
diff --git a/stratumv2/src/types/bytes.rs b/stratumv2/src/types/bytes.rs
index bc25e76..bb5a8ad 100644
--- a/stratumv2/src/types/bytes.rs
+++ b/stratumv2/src/types/bytes.rs
@@ -76,7 +76,7 @@ macro_rules! impl_sized_B0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_slice())?;
+                writer.write_all(self.data.as_slice())?;
 
                 Ok(header_length + self.data.len())
             }
diff --git a/stratumv2/src/types/fixed.rs b/stratumv2/src/types/fixed.rs
index fbdfc79..28d2334 100644
--- a/stratumv2/src/types/fixed.rs
+++ b/stratumv2/src/types/fixed.rs
@@ -77,7 +77,7 @@ impl Deserializable for U24 {
 
 impl Serializable for U24 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0.to_le_bytes()[0..3])?;
+        writer.write_all(&self.0.to_le_bytes()[0..3])?;
         Ok(3)
     }
 }
@@ -97,7 +97,7 @@ impl Deserializable for U256 {
 
 impl Serializable for U256 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0)?;
+        writer.write_all(&self.0)?;
         Ok(32)
     }
 }
diff --git a/stratumv2/src/types/primitives.rs b/stratumv2/src/types/primitives.rs
index be4f924..a58cb9a 100644
--- a/stratumv2/src/types/primitives.rs
+++ b/stratumv2/src/types/primitives.rs
@@ -7,7 +7,7 @@ use std::io;
 impl Serializable for bool {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = if *self { vec![1u8] } else { vec![0u8] };
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -15,7 +15,7 @@ impl Serializable for bool {
 impl Serializable for u8 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -23,7 +23,7 @@ impl Serializable for u8 {
 impl Serializable for u16 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -31,7 +31,7 @@ impl Serializable for u16 {
 impl Serializable for u32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -39,7 +39,7 @@ impl Serializable for u32 {
 impl Serializable for f32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
diff --git a/stratumv2/src/types/strings.rs b/stratumv2/src/types/strings.rs
index e9f5378..018559f 100644
--- a/stratumv2/src/types/strings.rs
+++ b/stratumv2/src/types/strings.rs
@@ -74,7 +74,7 @@ macro_rules! impl_sized_STR0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_bytes())?;
+                writer.write_all(self.data.as_bytes())?;
 
                 Ok(header_length + self.length as usize)
             }
-- 
2.43.0


From 3d79de240663bbf48faee2b4f06358da1498ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 05/18] fix: report timestamps that do not fit 32 bits instead
 of wrapping

---
 stratumv2/src/types/unix_timestamp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stratumv2/src/types/unix_timestamp.rs b/stratumv2/src/types/unix_timestamp.rs
index 2c42c5f..b7c9a77 100644
--- a/stratumv2/src/types/unix_timestamp.rs
+++ b/stratumv2/src/types/unix_timestamp.rs
@@ -1,11 +1,14 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
+use std::convert::TryFrom;
 use std::time::SystemTime;
 
 /// Convert SystemTime to a Unix timestamp as a u32.
 pub fn system_unix_time_to_u32(time: &SystemTime) -> Result<u32> {
-    Ok(time
-        .duration_since(SystemTime::UNIX_EPOCH)
-        .map(|duration| duration.as_secs() as u32)?)
+    let seconds = time.duration_since(SystemTime::UNIX_EPOCH)?.as_secs();
+
+    u32::try_from(seconds).map_err(|_| {
+        Error::RequirementError("the time cannot be represented as a 32-bit timestamp".into())
+    })
 }
 
 /// A helper function that returns the current unix time in seconds as a u32.
-- 
2.43.0


From 87fc4a0b8e6d82d87b08a4be5771492f218c2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 06/18] fix: reject certificates before their valid_from time

---
 stratumv2/src/noise/certificate_format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index 9342589..e0175b6 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -43,7 +43,14 @@ impl<'a> CertificateFormat<'a> {
     /// limits and whether the static public key was signed by the AuthorityKeyPair
     /// identifying the Mining Pool.
     pub fn verify(&self) -> Result<()> {
-        if unix_u32_now()? >= self.signature_noise_message.not_valid_after {
+        let now = unix_u32_now()?;
+        if now < self.signature_noise_message.valid_from {
+            return Err(Error::RequirementError(
+                "the signature noise message is not valid yet".into(),
+            ));
+        }
+
+        if now >= self.signature_noise_message.not_valid_after {
             return Err(Error::RequirementError(
                 "the signature noise message is expired".into(),
             ));
-- 
2.43.0


From b3cf19336cf35a6adeb1a8251fe15a38c1a81373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 07/18] fix: do not panic on handshake replies with short or
 long payloads

decrypt_and_hash underflowed when the payload was shorter than a MAC and
indexed past its 2048-byte buffer when it was longer.
---
 stratumv2/nx-noise/src/state.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b3c458a..13fe0db 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -221,14 +221,17 @@ impl SymmetricState {
     }
 
     pub(crate) fn decrypt_and_hash(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        let mut temp: [u8; 2048] = [0u8; 2048];
-        temp[..in_out.len()].copy_from_slice(in_out);
+        if in_out.len() < MAC_LENGTH {
+            return Err(NoiseError::MissingHsMacError);
+        }
+
+        let temp = in_out.to_vec();
         let (ciphertext, mac) = in_out.split_at_mut(in_out.len() - MAC_LENGTH);
         let mut temp_mac: [u8; MAC_LENGTH] = [0u8; MAC_LENGTH];
         temp_mac.copy_from_slice(mac);
         self.cs
             .decrypt_with_ad(&self.h.as_bytes()[..], ciphertext, &mut temp_mac)?;
-        self.mix_hash(&temp[..in_out.len()]);
+        self.mix_hash(&temp);
         Ok(())
     }
 
-- 
2.43.0


From f1b2cb001e72b5988ae7ed11950b242415f444a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 08/18] fix: rekey the remote cipherstate in
 rekey_remote_cipherstate

---
 stratumv2/nx-noise/src/noisesession.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 6c4cb06..ae4e2f9 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -65,7 +65,7 @@ impl NoiseSession {
 
     /// Calls the [Rekey](https://noiseprotocol.org/noise.html#rekey) method for `cs2`
     pub fn rekey_remote_cipherstate(&mut self) {
-        self.cs1.rekey()
+        self.cs2.rekey()
     }
 
     /// `NoiseSession` destructor function.
-- 
2.43.0


From 335fb6101656155653d26703981cdd0d66cae928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 09/18] fix: do not derive a usable key when rekeying a cleared
 cipherstate

Rekeying an empty key produced a non-empty, publicly known key.
---
 stratumv2/nx-noise/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 13fe0db..9e237a9 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -96,6 +96,9 @@ impl CipherState {
 
     #[allow(dead_code)]
     pub(crate) fn rekey(&mut self) {
+        if !self.has_key() {
+            return;
+        }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
             .nonce(&[0xFFu8; NONCE_LENGTH])
-- 
2.43.0


From 388a06fc7d7f985c2ff6cdc7e3e3a3487069744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 10/18] fix: NoiseError is not its own source

Walking the source chain of any NoiseError never ended.
---
 stratumv2/nx-noise/src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 598db8a..09ad2b0 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -47,6 +47,9 @@ impl std::fmt::Display for NoiseError {
 
 impl Error for NoiseError {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        match self {
+            NoiseError::Hex(e) => Some(e),
+            _ => None,
+        }
     }
 }
-- 
2.43.0


From 2f0beace8782243fb48642e758ac55932aac5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 11/18] fix: refuse handshake messages sent or received out of
 turn

An initiator that called send_message twice entered transport mode with
keys derived from an all-zero remote key, and either role could process
the message of the other.
---
 stratumv2/nx-noise/src/error.rs        | 4 ++++
 stratumv2/nx-noise/src/noisesession.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 09ad2b0..ebb6b6c 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -16,6 +16,7 @@ pub enum NoiseError {
     MissingHsMacError,
     MissingrsError,
     MissingreError,
+    UnexpectedMessageError,
 }
 
 impl std::fmt::Display for NoiseError {
@@ -40,6 +41,9 @@ impl std::fmt::Display for NoiseError {
             NoiseError::MissingneError => write!(f, "Invalid message length."),
             NoiseError::MissingrsError => write!(f, "Invalid message length."),
             NoiseError::MissingreError => write!(f, "Invalid message length."),
+            NoiseError::UnexpectedMessageError => {
+                write!(f, "Handshake message sent or received out of turn.")
+            }
             NoiseError::Hex(ref e) => e.fmt(f),
         }
     }
diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index ae4e2f9..d55e2ce 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -147,6 +147,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The initiator sends the first handshake message, the responder the second.
+        if self.mc < 2 && (self.mc == 0) != self.i {
+            return Err(NoiseError::UnexpectedMessageError);
+        }
         if self.mc == 0 {
             self.hs.write_message_a(in_out)?;
         } else if self.mc == 1 {
@@ -181,6 +185,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The responder receives the first handshake message, the initiator the second.
+        if self.mc < 2 && (self.mc == 0) == self.i {
+            return Err(NoiseError::UnexpectedMessageError);
+        }
 
         if self.mc == 0 {
             self.hs.read_message_a(in_out)?;
-- 
2.43.0


From 89e0e650358591d365c7cf654c966ab1c0700eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 12/18] fix: refuse every encoding of a small-order public key

The same points with the ignored top bit set were accepted, and parsing a
public key from text skipped the check.
---
 stratumv2/nx-noise/src/types.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 0fe14bf..5f2c696 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -294,8 +294,11 @@ impl PublicKey {
     }
     /// Instanciates a new `PublicKey` from an array of `DHLEN` bytes.
     pub fn from_bytes(k: [u8; DHLEN]) -> Result<Self, NoiseError> {
+        // X25519 ignores the most significant bit of a public key.
+        let mut masked = k;
+        masked[DHLEN - 1] &= 0x7f;
         for i in forbidden_curve_values.iter() {
-            if &k == i {
+            if &k == i || &masked == i {
                 return Err(NoiseError::InvalidPublicKeyError);
             }
         }
@@ -357,8 +360,7 @@ impl std::str::FromStr for PublicKey {
     /// # }
     /// ```
     fn from_str(key: &str) -> Result<Self, NoiseError> {
-        let pk = decode_str_32(key)?;
-        Ok(Self::from_hacl_public_key(curve25519::PublicKey(pk)))
+        Self::from_bytes(decode_str_32(key)?)
     }
 }
 
-- 
2.43.0


From 9d91422510ebcb1d5218a07fdd0a04f2c50de288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 13/18] fix: clear the MAC bytes of received transport messages
 as documented

---
 stratumv2/nx-noise/src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 9e237a9..d4f710b 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -122,6 +122,7 @@ impl CipherState {
         temp_mac.copy_from_slice(mac);
         self.decrypt_with_ad(&ZEROLEN[..], in_out, &mut temp_mac)?;
         temp_mac.zeroize();
+        mac.zeroize();
         Ok(())
     }
 }
-- 
2.43.0


From 8863f07e9153c8c6172711e8dbcdc6aa94b9face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 14/18] verif hook: set transport counters (cfg verif_hooks)

---
 stratumv2/nx-noise/src/noisesession.rs | 11 +++++++++++
 stratumv2/nx-noise/src/types.rs        |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index d55e2ce..d0e53c3 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -209,3 +209,14 @@ impl NoiseSession {
         Ok(())
     }
 }
+
+/// Verification hook, compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl NoiseSession {
+    /// Sets the message counters of `cs1` and `cs2`, so that checks can reach
+    /// counter values that take too many messages to reach otherwise.
+    pub fn verif_set_nonces(&mut self, n1: u64, n2: u64) {
+        self.cs1.set_nonce(crate::types::Nonce::verif_from_value(n1));
+        self.cs2.set_nonce(crate::types::Nonce::verif_from_value(n2));
+    }
+}
diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 5f2c696..5059101 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -382,6 +382,12 @@ impl Nonce {
         Ok(self.n)
     }
 }
+#[cfg(verif_hooks)]
+impl Nonce {
+    pub(crate) fn verif_from_value(n: u64) -> Self {
+        Self { n: n as _ }
+    }
+}
 
 #[derive(Clone, PartialEq)]
 pub struct Keypair {
-- 
2.43.0


From 08a1e897cd28e96fbe660ae6cd3fdb9f2e055f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:31 +0000
Subject: [PATCH 15/18] fix: use the nonce the Noise specification gives for
 rekey

Rekey encrypts with n = 2^64-1, and ChaChaPoly nonces are four zero bytes
followed by n; the first four bytes were 0xFF, so rekeyed keys differed
from those of any other implementation.
---
 stratumv2/nx-noise/src/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index d4f710b..e3c7007 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -3,11 +3,11 @@
  * ---------------------------------------------------------------- */
 
 use crate::{
-    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, NONCE_LENGTH, ZEROLEN},
+    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, MAX_NONCE, ZEROLEN},
     error::NoiseError,
     prims::{decrypt, encrypt, hash, hash_with_context, hkdf},
     types::{Hash, Key, Keypair, Nonce, Psk, PublicKey},
-    utils::from_slice_hashlen,
+    utils::{from_slice_hashlen, prep_nonce},
 };
 use hacl_star::chacha20poly1305;
 use zeroize::Zeroize;
@@ -101,7 +101,7 @@ impl CipherState {
         }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
-            .nonce(&[0xFFu8; NONCE_LENGTH])
+            .nonce(&prep_nonce(MAX_NONCE))
             .encrypt(&ZEROLEN[..], &mut in_out[..], &mut [0u8; 16]);
         self.k.clear();
         self.k = Key::from_bytes(in_out);
-- 
2.43.0


From 44adaaf3052c3031f752f0f1f40f7dd74dca8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 16/18] fix: accept first handshake messages without a payload

---
 stratumv2/nx-noise/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index e3c7007..8a9f957 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -366,7 +366,7 @@ impl HandshakeState {
     }
 
     pub(crate) fn read_message_a(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        if in_out.len() < MAC_LENGTH + DHLEN {
+        if in_out.len() < DHLEN {
             return Err(NoiseError::MissingreError);
         }
 
-- 
2.43.0


From 10fc56da06f0ff10bc24d59f9ff951c346258161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:13 +0000
Subject: [PATCH 17/18] fix: refuse a short reply buffer before changing the
 handshake state

---
 stratumv2/nx-noise/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 8a9f957..02dfd92 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -336,7 +336,8 @@ impl HandshakeState {
         &mut self,
         in_out: &mut [u8],
     ) -> Result<(Hash, CipherState, CipherState), NoiseError> {
-        if in_out.len() < DHLEN {
+        // Refuse a buffer that is too short before the handshake state is changed.
+        if in_out.len() < 2 * (DHLEN + MAC_LENGTH) {
             return Err(NoiseError::MissingneError);
         }
         if self.e.is_empty() {
-- 
2.43.0


From 2e18bb11b8714ce910bf6591fbec6f2922f898b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 18/18] fix: draw keys and channel identifiers from the
 system's generator, which a fork does not duplicate

---
 stratumv2/nx-noise/src/types.rs  | 4 ++--
 stratumv2/src/network/channel.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 5059101..e5b6300 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -406,10 +406,10 @@ impl Keypair {
             public_key: PublicKey::empty(),
         }
     }
-    /// Instanciates a `Keypair` by generating a `PrivateKey` from random values using `thread_rng()`, then deriving the corresponding `PublicKey`
+    /// Instanciates a `Keypair` by generating a `PrivateKey` from random values using `OsRng`, then deriving the corresponding `PublicKey`
     pub fn default() -> Self {
         let hacl_keypair: (curve25519::SecretKey, curve25519::PublicKey) =
-            curve25519::keypair(rand::thread_rng());
+            curve25519::keypair(rand::rngs::OsRng::new().expect("the system's generator failed"));
         Self {
             private_key: PrivateKey::from_hacl_secret_key(hacl_keypair.0),
             public_key: PublicKey::from_hacl_public_key(hacl_keypair.1),
diff --git a/stratumv2/src/network/channel.rs b/stratumv2/src/network/channel.rs
index a864f4d..c3d0639 100644
--- a/stratumv2/src/network/channel.rs
+++ b/stratumv2/src/network/channel.rs
@@ -1,7 +1,7 @@
 use crate::mining::{OpenExtendedMiningChannel, OpenStandardMiningChannel};
 use std::{collections::HashMap, sync::Mutex};
 
-use rand::Rng;
+use rand::{rngs::OsRng, Rng};
 
 /// ChanID is a type assigned to identify channels on a connection.
 /// The type de/serialzing for messaging is already handled using the native
@@ -10,7 +10,7 @@ pub type ChanID = u32;
 
 /// Generate a new random channel_id.
 pub fn new_channel_id() -> ChanID {
-    rand::thread_rng().gen_range(0, ChanID::MAX)
+    OsRng.gen_range(0, ChanID::MAX)
 }
 
 /// Represents a Channel opened on a connection. The Channel holds stateful
-- 
2.43.0

