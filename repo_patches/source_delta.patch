From 405976e6209511e06c800e20bed94d7d22343a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 1/6] fix: refuse truncated or inconsistent messages instead of
 panicking

Short messages, short type headers and an ENCAPSULED_MSG_LEN that does not
match the received bytes made the reader index out of bounds. They are now
refused with MessageTooShort.
---
 src/encryption/chacha20_poly1305_aead.rs |  4 +++
 src/reader.rs                            | 36 ++++++++++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..6d08c80 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,6 +51,9 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
+    if encrypted_data.len() < CHACHA20_TAG_SIZE {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
 
     chacha20_poly1305_aead::decrypt(
diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..01455be 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -45,7 +45,7 @@ pub(crate) fn read(
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
-    if incoming_data[..MAGIC_VALUE_END] == MAGIC_VALUE {
+    if incoming_data.starts_with(&MAGIC_VALUE) {
         // Data are not encrypted
         data_encrypted = false;
         buffer.write(incoming_data).map_err(Error::WriteError)?;
@@ -61,20 +61,25 @@ pub(crate) fn read(
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
     // Check magic value
-    if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
+    if !decrypted_data.starts_with(&MAGIC_VALUE) {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
     // Check version
+    if decrypted_data.len() < VERSION_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
     // Read ENCAPSULED_MSG_SIZE
+    if decrypted_data.len() < ENCAPSULED_MSG_BEGIN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
     buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
-    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
-    let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
+    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
 
     // Read type headers
     let (msg_type_headers, type_headers_len) =
@@ -85,16 +90,35 @@ pub(crate) fn read(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
     } else {
+        // The encapsuled message must contain its type headers and fit in the received data
+        let user_msg_begin = ENCAPSULED_MSG_BEGIN + type_headers_len;
+        if encapsuled_msg_size < type_headers_len as u64
+            || encapsuled_msg_size > (decrypted_data.len() - ENCAPSULED_MSG_BEGIN) as u64
+        {
+            return Err(IncomingMsgErr::MessageTooShort.into());
+        }
+
         Ok(DecryptedIncomingData {
             data: decrypted_data,
-            user_msg_begin: ENCAPSULED_MSG_BEGIN + type_headers_len,
-            user_msg_end,
+            user_msg_begin,
+            user_msg_end: ENCAPSULED_MSG_BEGIN + encapsuled_msg_size as usize,
             msg_type_headers,
         })
     }
 }
 
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
+    // Check length
+    let type_headers_len = match type_headers.get(..MSG_TYPE_LEN) {
+        Some(USER_MSG_TYPE) => MSG_TYPE_LEN + NONCE_SIZE,
+        Some(CONNECT_MSG_TYPE) => SIG_PUBKEY_BEGIN + 32,
+        Some(ACK_MSG_TYPE) => MSG_TYPE_LEN + CHALLENGE_SIZE,
+        _ => MSG_TYPE_LEN,
+    };
+    if type_headers.len() < type_headers_len {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Match message type
     match &type_headers[..MSG_TYPE_LEN] {
         USER_MSG_TYPE => {
-- 
2.43.0


From 7139e759ffc8ece8170472dfebef7bba60d45c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 2/6] fix: pin the peer identity only after a valid CONNECT
 message

A CONNECT message with a bad signature was refused, but its public key was
kept as the identity of the peer, so that the genuine peer was then refused.
---
 src/minimal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..b9d906b 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -194,8 +194,6 @@ impl MinimalSecureLayer {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -209,6 +207,9 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Remember peer sig pubkey, now that the message is known to be valid
+                self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                 self.compute_shared_secret(&peer_ephemeral_pk[..])?;
-- 
2.43.0


From c474e839d74edb4453037c5db2976a671e9a7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 3/6] fix: fail the connection when the key agreement fails

After a CONNECT message with an unusable ephemeral public key the negotiation
could still complete, without any secret key: the first user message then
panicked.
---
 src/minimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index b9d906b..dba523d 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -212,7 +212,10 @@ impl MinimalSecureLayer {
 
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From 7a1dd7ba56081478eddd69148e4fa38c5449057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 4/6] fix: do not lose early user messages when one of them was
 duplicated

Draining the messages received before the ACK stopped at the first duplicate
and dropped every message already stacked.
---
 src/minimal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index dba523d..0fe5d23 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -134,8 +134,11 @@ impl MinimalSecureLayer {
         let bin_msgs: Vec<Vec<u8>> = self.tmp_stack_user_msgs.drain(..).collect();
         let mut msgs = Vec::with_capacity(bin_msgs.len());
         for bin_msg in bin_msgs {
-            if let Some(msg) = self.read_inner(&bin_msg, false)? {
-                msgs.push(msg);
+            match self.read_inner(&bin_msg, false) {
+                Ok(Some(msg)) => msgs.push(msg),
+                // A duplicate of a message already read must not discard the following messages
+                Ok(None) | Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidNonce)) => {}
+                Err(e) => return Err(e),
             }
         }
         Ok(msgs)
-- 
2.43.0


From 6eff4a1d8ec1ee228c47891568f727753b36e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 5/6] fix: write whole messages to writers that accept fewer
 bytes at a time

write() may take only a part of the buffer: message bytes, the signature or
the encryption tag could be silently truncated.
---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 6d08c80..90ec107 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -85,7 +85,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag.to_vec())
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From 6f9a2cec4dbd4948ddf2ff12ed2cc6f5e9341614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 6/6] fix: refuse the plain text format with an error instead
 of panicking

A peer could crash the reader with a message in this format.
---
 src/complete/serde.rs              | 2 +-
 src/complete/serde/deserializer.rs | 2 +-
 src/complete/serde/serializer.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complete/serde.rs b/src/complete/serde.rs
index c1940bc..384eb0b 100644
--- a/src/complete/serde.rs
+++ b/src/complete/serde.rs
@@ -56,7 +56,7 @@ pub enum SerdeError {
     #[cfg(feature = "json")]
     /// Json error
     JsonError(serde_json::Error),
-    /// For the "raw binary" format, use the functions suffixed by _bin
+    /// For the "raw binary" and "utf8 plain text" formats, use the functions suffixed by _bin
     UseSuffixedBinFunctions,
     /// Not copyable error for linter
     _IoError(std::io::Error),
diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..dac6c6d 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -101,6 +101,6 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
+        MessageFormat::Utf8PlainText => Err(SerdeError::UseSuffixedBinFunctions),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..e3b66ae 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -116,6 +116,6 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
+        MessageFormat::Utf8PlainText => Err(SerdeError::UseSuffixedBinFunctions),
     }
 }
-- 
2.43.0

