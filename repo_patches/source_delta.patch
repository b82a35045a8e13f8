From 382c8859eff95f01327974dd54019d82670cabeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:17 +0000
Subject: [PATCH 01/14] fix: rekey_remote_cipherstate rekeys the remote cipher
 state (cs2)

---
 stratumv2/nx-noise/src/noisesession.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 6c4cb06..ae4e2f9 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -65,7 +65,7 @@ impl NoiseSession {
 
     /// Calls the [Rekey](https://noiseprotocol.org/noise.html#rekey) method for `cs2`
     pub fn rekey_remote_cipherstate(&mut self) {
-        self.cs1.rekey()
+        self.cs2.rekey()
     }
 
     /// `NoiseSession` destructor function.
-- 
2.43.0


From 8cde46984db37fb93e1d8bd69e98ef9343321a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:20 +0000
Subject: [PATCH 02/14] fix: decrypt_and_hash rejects short payloads and
 accepts payloads over 2048 bytes instead of panicking

---
 stratumv2/nx-noise/src/state.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b3c458a..b434436 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -221,14 +221,17 @@ impl SymmetricState {
     }
 
     pub(crate) fn decrypt_and_hash(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        let mut temp: [u8; 2048] = [0u8; 2048];
-        temp[..in_out.len()].copy_from_slice(in_out);
+        if in_out.len() < MAC_LENGTH {
+            return Err(NoiseError::MissingHsMacError);
+        }
+        // The hash covers the ciphertext, which is overwritten by the decryption.
+        let next_h = Hash::from_bytes(hash_with_context(&self.h.as_bytes()[..], in_out));
         let (ciphertext, mac) = in_out.split_at_mut(in_out.len() - MAC_LENGTH);
         let mut temp_mac: [u8; MAC_LENGTH] = [0u8; MAC_LENGTH];
         temp_mac.copy_from_slice(mac);
         self.cs
             .decrypt_with_ad(&self.h.as_bytes()[..], ciphertext, &mut temp_mac)?;
-        self.mix_hash(&temp[..in_out.len()]);
+        self.h = next_h;
         Ok(())
     }
 
-- 
2.43.0


From 08ab7052d9eb54aaf3d0507d0277affefdc7033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 03/14] fix: serialize writes every byte (write_all) instead of
 dropping the rest after a short write

---
 stratumv2/src/codec/frame.rs      |  4 +++-
 stratumv2/src/noise/types.rs      |  4 ++--
 stratumv2/src/types/bytes.rs      |  2 +-
 stratumv2/src/types/fixed.rs      |  4 ++--
 stratumv2/src/types/primitives.rs | 10 +++++-----
 stratumv2/src/types/strings.rs    |  2 +-
 6 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index b8a16ec..0e3a708 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -46,7 +46,9 @@ impl Serializable for Message {
             extension_type.serialize(writer)?,
             message_type.serialize(writer)?,
             message_length.serialize(writer)?,
-            writer.write(self.payload.as_slice())?,
+            writer
+                .write_all(self.payload.as_slice())
+                .map(|_| self.payload.len())?,
         ]
         .iter()
         .sum())
diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 9d3400d..475a9ba 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -26,7 +26,7 @@ pub type StaticPublicKey = noiseexplorer_nx::types::PublicKey;
 impl Serializable for StaticPublicKey {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.as_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
@@ -52,7 +52,7 @@ pub type Signature = ed25519_dalek::Signature;
 impl Serializable for Signature {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.to_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
diff --git a/stratumv2/src/types/bytes.rs b/stratumv2/src/types/bytes.rs
index bc25e76..bb5a8ad 100644
--- a/stratumv2/src/types/bytes.rs
+++ b/stratumv2/src/types/bytes.rs
@@ -76,7 +76,7 @@ macro_rules! impl_sized_B0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_slice())?;
+                writer.write_all(self.data.as_slice())?;
 
                 Ok(header_length + self.data.len())
             }
diff --git a/stratumv2/src/types/fixed.rs b/stratumv2/src/types/fixed.rs
index fbdfc79..28d2334 100644
--- a/stratumv2/src/types/fixed.rs
+++ b/stratumv2/src/types/fixed.rs
@@ -77,7 +77,7 @@ impl Deserializable for U24 {
 
 impl Serializable for U24 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0.to_le_bytes()[0..3])?;
+        writer.write_all(&self.0.to_le_bytes()[0..3])?;
         Ok(3)
     }
 }
@@ -97,7 +97,7 @@ impl Deserializable for U256 {
 
 impl Serializable for U256 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0)?;
+        writer.write_all(&self.0)?;
         Ok(32)
     }
 }
diff --git a/stratumv2/src/types/primitives.rs b/stratumv2/src/types/primitives.rs
index be4f924..a58cb9a 100644
--- a/stratumv2/src/types/primitives.rs
+++ b/stratumv2/src/types/primitives.rs
@@ -7,7 +7,7 @@ use std::io;
 impl Serializable for bool {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = if *self { vec![1u8] } else { vec![0u8] };
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -15,7 +15,7 @@ impl Serializable for bool {
 impl Serializable for u8 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -23,7 +23,7 @@ impl Serializable for u8 {
 impl Serializable for u16 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -31,7 +31,7 @@ impl Serializable for u16 {
 impl Serializable for u32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -39,7 +39,7 @@ impl Serializable for u32 {
 impl Serializable for f32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
diff --git a/stratumv2/src/types/strings.rs b/stratumv2/src/types/strings.rs
index e9f5378..018559f 100644
--- a/stratumv2/src/types/strings.rs
+++ b/stratumv2/src/types/strings.rs
@@ -74,7 +74,7 @@ macro_rules! impl_sized_STR0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_bytes())?;
+                writer.write_all(self.data.as_bytes())?;
 
                 Ok(header_length + self.length as usize)
             }
-- 
2.43.0


From 0fc2a22b20640499c2829d27a6d7a5f274971f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:56 +0000
Subject: [PATCH 04/14] fix: ByteParser::next_by returns an error instead of
 overflowing the offset

---
 stratumv2/src/codec/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/parser.rs b/stratumv2/src/codec/parser.rs
index 8c7e7e6..858518f 100644
--- a/stratumv2/src/codec/parser.rs
+++ b/stratumv2/src/codec/parser.rs
@@ -14,7 +14,10 @@ impl<'a> ByteParser<'a> {
     }
 
     pub fn next_by(&mut self, step: usize) -> Result<&'a [u8]> {
-        let offset = self.start + step;
+        let offset = self
+            .start
+            .checked_add(step)
+            .ok_or_else(|| Error::ParseError("out of bounds error".into()))?;
 
         let b = self.bytes.get(self.start..offset);
         if b.is_none() {
-- 
2.43.0


From d38cf9a0b296cfa18de96fdf8672f773ff2eba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:00 +0000
Subject: [PATCH 05/14] fix: framing rejects payloads whose length does not fit
 U24 instead of truncating it to 32 bits

---
 stratumv2/src/codec/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index 0e3a708..8ebae63 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -1,6 +1,7 @@
 use crate::codec::{serialize, ByteParser, Deserializable, Serializable};
 use crate::error::{Error, Result};
 use crate::types::{MessageType, U24};
+use std::convert::TryFrom;
 use std::io;
 
 /// The CHANNEL_BIT_MASK is used to mask out the MSB to identify if a message
@@ -40,7 +41,7 @@ impl Serializable for Message {
             extension_type |= CHANNEL_BIT_MASK;
         }
 
-        let message_length = U24::new(self.payload.len() as u32)?;
+        let message_length = U24::try_from(self.payload.len())?;
 
         Ok([
             extension_type.serialize(writer)?,
-- 
2.43.0


From 096e7f182987738fc9d34dafd31a8fb7203963c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:18 +0000
Subject: [PATCH 06/14] fix: system_unix_time_to_u32 errors on times past u32
 instead of wrapping

---
 stratumv2/src/types/unix_timestamp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stratumv2/src/types/unix_timestamp.rs b/stratumv2/src/types/unix_timestamp.rs
index 2c42c5f..69605ab 100644
--- a/stratumv2/src/types/unix_timestamp.rs
+++ b/stratumv2/src/types/unix_timestamp.rs
@@ -1,11 +1,13 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
+use std::convert::TryFrom;
 use std::time::SystemTime;
 
 /// Convert SystemTime to a Unix timestamp as a u32.
 pub fn system_unix_time_to_u32(time: &SystemTime) -> Result<u32> {
-    Ok(time
-        .duration_since(SystemTime::UNIX_EPOCH)
-        .map(|duration| duration.as_secs() as u32)?)
+    let seconds = time.duration_since(SystemTime::UNIX_EPOCH)?.as_secs();
+
+    u32::try_from(seconds)
+        .map_err(|_| Error::RequirementError("unix timestamp does not fit in a u32".into()))
 }
 
 /// A helper function that returns the current unix time in seconds as a u32.
-- 
2.43.0


From e799a1aca8bc368a40a05eba221a96139f6c7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:22 +0000
Subject: [PATCH 07/14] fix: CertificateFormat::verify rejects certificates
 that are not valid yet

---
 stratumv2/src/noise/certificate_format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index 9342589..e0175b6 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -43,7 +43,14 @@ impl<'a> CertificateFormat<'a> {
     /// limits and whether the static public key was signed by the AuthorityKeyPair
     /// identifying the Mining Pool.
     pub fn verify(&self) -> Result<()> {
-        if unix_u32_now()? >= self.signature_noise_message.not_valid_after {
+        let now = unix_u32_now()?;
+        if now < self.signature_noise_message.valid_from {
+            return Err(Error::RequirementError(
+                "the signature noise message is not valid yet".into(),
+            ));
+        }
+
+        if now >= self.signature_noise_message.not_valid_after {
             return Err(Error::RequirementError(
                 "the signature noise message is expired".into(),
             ));
-- 
2.43.0


From 77ca956cd2bfea0f8b93873fbab827501db2e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:25 +0000
Subject: [PATCH 08/14] fix: PublicKey::from_str refuses the forbidden curve
 points like from_bytes

---
 stratumv2/nx-noise/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 0fe14bf..c9ac781 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -358,7 +358,7 @@ impl std::str::FromStr for PublicKey {
     /// ```
     fn from_str(key: &str) -> Result<Self, NoiseError> {
         let pk = decode_str_32(key)?;
-        Ok(Self::from_hacl_public_key(curve25519::PublicKey(pk)))
+        Self::from_bytes(pk)
     }
 }
 
-- 
2.43.0


From e1017cb7552302359bf1e6eeb2898ec43329bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:29 +0000
Subject: [PATCH 09/14] fix: decoding a malformed signature returns an error
 instead of panicking

---
 stratumv2/src/noise/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 475a9ba..1904337 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -1,7 +1,6 @@
 use crate::codec::{ByteParser, Deserializable, Serializable};
 use crate::error::Result;
 use rand::rngs::OsRng;
-use std::convert::TryInto;
 use std::io;
 
 /// AuthorityKeyPair is an ed25519_dalek::Keypair used as the Authentication Authority
@@ -61,6 +60,6 @@ impl Serializable for Signature {
 impl Deserializable for Signature {
     fn deserialize(parser: &mut ByteParser) -> Result<Self> {
         let signature_bytes = parser.next_by(64)?;
-        Ok(Signature::new(signature_bytes.try_into()?))
+        Ok(Signature::from_bytes(signature_bytes)?)
     }
 }
-- 
2.43.0


From 0e04af3cbb9cc864e9a68b801b09f7157465d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:12 +0000
Subject: [PATCH 10/14] fix: NoiseSession refuses handshake messages sent or
 received out of role

---
 stratumv2/nx-noise/src/error.rs        | 2 ++
 stratumv2/nx-noise/src/noisesession.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 598db8a..13a2a09 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -16,6 +16,7 @@ pub enum NoiseError {
     MissingHsMacError,
     MissingrsError,
     MissingreError,
+    HandshakeOrderError,
 }
 
 impl std::fmt::Display for NoiseError {
@@ -40,6 +41,7 @@ impl std::fmt::Display for NoiseError {
             NoiseError::MissingneError => write!(f, "Invalid message length."),
             NoiseError::MissingrsError => write!(f, "Invalid message length."),
             NoiseError::MissingreError => write!(f, "Invalid message length."),
+            NoiseError::HandshakeOrderError => write!(f, "Handshake message out of order."),
             NoiseError::Hex(ref e) => e.fmt(f),
         }
     }
diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index ae4e2f9..0fe9dee 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -147,6 +147,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The initiator writes message A, the responder writes message B.
+        if (self.mc == 0 && !self.i) || (self.mc == 1 && self.i) {
+            return Err(NoiseError::HandshakeOrderError);
+        }
         if self.mc == 0 {
             self.hs.write_message_a(in_out)?;
         } else if self.mc == 1 {
@@ -181,6 +185,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The responder reads message A, the initiator reads message B.
+        if (self.mc == 0 && self.i) || (self.mc == 1 && !self.i) {
+            return Err(NoiseError::HandshakeOrderError);
+        }
 
         if self.mc == 0 {
             self.hs.read_message_a(in_out)?;
-- 
2.43.0


From 63d9b5e648a1c3f695b10920f43f0de0fa5fce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:24 +0000
Subject: [PATCH 11/14] fix: NoiseError::source no longer returns the error
 itself, which made the source chain endless

---
 stratumv2/nx-noise/src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 13a2a09..bd7b78c 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -49,6 +49,9 @@ impl std::fmt::Display for NoiseError {
 
 impl Error for NoiseError {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        match *self {
+            NoiseError::Hex(ref e) => Some(e),
+            _ => None,
+        }
     }
 }
-- 
2.43.0


From 2efd66ccfcc169ba289c0527cb34a96cba510a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:12 +0000
Subject: [PATCH 12/14] fix: clearing the handshake state also clears its
 symmetric state, so ending a session wipes derived secrets

---
 stratumv2/nx-noise/src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b434436..6e03ed3 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -268,6 +268,7 @@ pub struct HandshakeState {
 
 impl HandshakeState {
     pub(crate) fn clear(&mut self) {
+        self.ss.clear();
         self.s.clear();
         self.e.clear();
         self.re.clear();
-- 
2.43.0


From 0bdea3d43bfd265528cde131b08fa02a953e89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:15 +0000
Subject: [PATCH 13/14] fix: rekeying uses the maximum nonce in its wire
 encoding, as Noise's REKEY prescribes

---
 stratumv2/nx-noise/src/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 6e03ed3..95fdcff 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -3,11 +3,11 @@
  * ---------------------------------------------------------------- */
 
 use crate::{
-    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, NONCE_LENGTH, ZEROLEN},
+    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, MAX_NONCE, ZEROLEN},
     error::NoiseError,
     prims::{decrypt, encrypt, hash, hash_with_context, hkdf},
     types::{Hash, Key, Keypair, Nonce, Psk, PublicKey},
-    utils::from_slice_hashlen,
+    utils::{from_slice_hashlen, prep_nonce},
 };
 use hacl_star::chacha20poly1305;
 use zeroize::Zeroize;
@@ -98,7 +98,7 @@ impl CipherState {
     pub(crate) fn rekey(&mut self) {
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
-            .nonce(&[0xFFu8; NONCE_LENGTH])
+            .nonce(&prep_nonce(MAX_NONCE))
             .encrypt(&ZEROLEN[..], &mut in_out[..], &mut [0u8; 16]);
         self.k.clear();
         self.k = Key::from_bytes(in_out);
-- 
2.43.0


From a735744a99f7a874aea6f05389180398ed4e0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:19 +0000
Subject: [PATCH 14/14] fix: rekeying a cleared cipher state leaves it empty
 instead of giving it a publicly known key

---
 stratumv2/nx-noise/src/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 95fdcff..e52a8a0 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -96,6 +96,10 @@ impl CipherState {
 
     #[allow(dead_code)]
     pub(crate) fn rekey(&mut self) {
+        // A cleared key stays empty: its rekeyed value would be known to anyone.
+        if !self.has_key() {
+            return;
+        }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
             .nonce(&prep_nonce(MAX_NONCE))
-- 
2.43.0

