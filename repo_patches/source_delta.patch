From 22f54412f519375873ae24f09dcada1f0a77bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 01/33] fix: reject extension lists whose last entry is
 truncated

The length check did not account for the extension header, so an extension
whose length reached past the end of the list made split_at panic. Other
truncated lists were silently accepted.
---
 src/extensions.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..7f82a75 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -166,25 +166,28 @@ impl<'a> ExtIter<'a> {
 }
 
 impl<'a> Iterator for ExtIter<'a> {
-    type Item = ExtRef<'a>;
+    type Item = Result<ExtRef<'a>, TurtlsAlert>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+        if self.exts.is_empty() {
             return None;
         }
+        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let len = u16::from_be_bytes([
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
-            return None;
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let ext;
         (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
         let ext_type = [ext[0], ext[1]];
-        Some(ExtRef {
+        Some(Ok(ExtRef {
             ext_type,
             data: &ext[TurtlsExts::HEADER_SIZE..],
-        })
+        }))
     }
 }
 
@@ -203,6 +206,7 @@ pub(crate) fn parse_ser_hel_exts(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -228,6 +232,7 @@ pub(crate) fn parse_encrypted_extensions(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
-- 
2.43.0


From ee90d25ce3da02ca0631bcd64127133a7ac9edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 02/33] fix: validate the server's key share before using it

A short key share made the slicing panic, and the declared length, the point
form and whether secp256r1 itself was offered were not checked.
---
 src/extensions/key_share.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..75a6bf3 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -14,6 +14,8 @@ use crate::state::{GlobalState, UnprotShakeState};
 use crate::TurtlsError;
 
 const KEY_SHARE_LEGACY_FORM: u8 = 4;
+/// The length of a secp256r1 public key: the legacy form byte and both coordinates.
+const SECP256R1_SHARE_LEN: usize = 1 + 2 * 32;
 /// Key exchange via ECDH on the secp256r1 (NIST-P 256) curve.
 pub const TURTLS_SECP256R1: u16 = 0b0000000000000001;
 
@@ -144,6 +146,9 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    if key_share.len() != SECP256R1_SHARE_LEN || key_share[0] != KEY_SHARE_LEGACY_FORM {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -161,13 +166,19 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
+    if key_share.len() < size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let (header, key) = key_share.split_at(size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE);
+    if u16::from_be_bytes([header[2], header[3]]) as usize != key.len() {
+        return Err(TurtlsAlert::DecodeError);
+    }
     match &key_share[..size_of::<NamedGroup>()] {
-        x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
-            let dh_secret = secp256r1_shared_secret(
-                &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
-                &shake_crypto.priv_keys,
-            )
-            .ok_or(TurtlsAlert::IllegalParam)?;
+        x if x == NamedGroup::Secp256r1.to_be_bytes()
+            && shake_crypto.sup_groups & TURTLS_SECP256R1 != 0 =>
+        {
+            let dh_secret = secp256r1_shared_secret(key, &shake_crypto.priv_keys)
+                .ok_or(TurtlsAlert::IllegalParam)?;
 
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
                 .ok_or(TurtlsAlert::HandshakeFailure)
-- 
2.43.0


From 78b6a92b4c099d228693ba4b1db3699ef11d8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 03/33] fix: bound ServerHello and EncryptedExtensions parsing
 by the message length

The minimum length ignored the session id, so a truncated ServerHello with a
non-empty session id made the slicing panic, as did an EncryptedExtensions
message of fewer than two bytes.
---
 src/extensions.rs   | 3 +++
 src/server_hello.rs | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 7f82a75..fb2d46f 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -224,6 +224,9 @@ pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..1d84953 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -8,7 +8,7 @@ use crate::TurtlsAlert;
 
 pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + RANDOM_BYTES_LEN
-    + 3
+    + 1
     + size_of::<CipherSuite>()
     + 1
     + TurtlsExts::LEN_SIZE;
@@ -29,6 +29,9 @@ pub(crate) fn server_hello_client(
     if leg_session_id_len > 32 {
         return Err(TurtlsAlert::DecodeError);
     }
+    if ser_hel.len() < MIN_LEN + leg_session_id_len as usize {
+        return Err(TurtlsAlert::DecodeError);
+    }
     pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
 
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
-- 
2.43.0


From b15980a6751680f7a8d0482580de4a910d40cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 04/33] fix: check the type of every record a handshake message
 is read from

Only the record that starts a message was checked, so alerts and application
data in the middle of a fragmented message were taken as handshake bytes.
---
 src/handshake.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..c43ce65 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -207,6 +207,16 @@ impl ShakeBuf {
         &self.buf[Self::HEADER_SIZE..][..self.len]
     }
 
+    /// Checks that the current record carries handshake data.
+    fn check_record(rl: &RecordLayer) -> Result<(), FullError> {
+        rl.check_alert()
+            .map_err(|alert| FullError::recving_alert(alert))?;
+        if rl.msg_type() != ContentType::Handshake.to_byte() {
+            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+        }
+        Ok(())
+    }
+
     fn read_inner(
         &mut self,
         rl: &mut RecordLayer,
@@ -222,14 +232,10 @@ impl ShakeBuf {
                             rl.discard();
                             get_fn(rl)?;
                         }
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
                     }
                     while *amt < Self::HEADER_SIZE {
                         get_fn(rl)?;
+                        Self::check_record(rl)?;
                         let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
                         if new_bytes == 0 {
                             return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
@@ -246,6 +252,7 @@ impl ShakeBuf {
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
                         get_fn(rl)?;
+                        Self::check_record(rl)?;
                         let new_bytes = rl.read_remaining(
                             &mut self.buf[Self::HEADER_SIZE + *amt..Self::HEADER_SIZE + self.len],
                         );
-- 
2.43.0


From f1465c5598ac112abf45bc30b86eba03ba9398cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 05/33] fix: reject handshake messages of the wrong type

The message type byte was never compared with the message the handshake is
waiting for, so any message was parsed as the expected one.
---
 src/handshake.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c43ce65..3f8e327 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -42,7 +42,11 @@ pub(crate) fn handshake_client(
                 UnprotShakeMsg::ServerHello => {
                     shake_state
                         .buf
-                        .read_raw(&mut global_state.rl, &mut global_state.transcript)
+                        .read_raw(
+                            ShakeType::ServerHello,
+                            &mut global_state.rl,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             if let TurtlsError::Tls = err.turtls_error {
                                 global_state.rl.close_raw(err.alert);
@@ -68,7 +72,12 @@ pub(crate) fn handshake_client(
                 ProtShakeMsg::EncryptedExtensions => {
                     shake_state
                         .buf
-                        .read(&mut global_state.rl, aead, &mut global_state.transcript)
+                        .read(
+                            ShakeType::EncryptedExtensions,
+                            &mut global_state.rl,
+                            aead,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             if let TurtlsError::Tls = err.turtls_error {
                                 global_state.rl.close(err.alert, aead);
@@ -86,7 +95,12 @@ pub(crate) fn handshake_client(
                 ProtShakeMsg::Certificate => {
                     shake_state
                         .buf
-                        .read(&mut global_state.rl, aead, &mut global_state.transcript)
+                        .read(
+                            ShakeType::Certificate,
+                            &mut global_state.rl,
+                            aead,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             if let TurtlsError::Tls = err.turtls_error {
                                 global_state.rl.close(err.alert, aead);
@@ -219,6 +233,7 @@ impl ShakeBuf {
 
     fn read_inner(
         &mut self,
+        expected: u8,
         rl: &mut RecordLayer,
         mut get_fn: impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
         transcript: &mut TranscriptHasher,
@@ -242,6 +257,9 @@ impl ShakeBuf {
                         }
                         *amt += new_bytes;
                     }
+                    if self.buf[0] != expected {
+                        return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+                    }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
                     if self.len > self.buf.len() {
@@ -272,21 +290,23 @@ impl ShakeBuf {
     /// Reads an entire plaintext handshake message.
     pub(crate) fn read_raw(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
         let get_fn = RecordLayer::get_raw;
-        self.read_inner(rl, get_fn, transcript)
+        self.read_inner(expected.to_byte(), rl, get_fn, transcript)
     }
 
     pub(crate) fn read(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         aead: &mut TlsAead,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
         let get_fn = |rl: &mut RecordLayer| RecordLayer::get(rl, aead);
-        self.read_inner(rl, get_fn, transcript)
+        self.read_inner(expected.to_byte(), rl, get_fn, transcript)
     }
 
     pub(crate) fn write_raw(
-- 
2.43.0


From 77681c123b37a6843dc41b12c077d8ab9bdf8470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:04 +0000
Subject: [PATCH 06/33] fix: require exactly one supported_versions and one
 key_share in ServerHello

A ServerHello that did not select TLS 1.3 was accepted, and a repeated key
share advanced the key schedule twice.
---
 src/extensions.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index fb2d46f..8338375 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -196,7 +196,8 @@ pub(crate) fn parse_ser_hel_exts(
     shake_crypto: &mut UnprotShakeState,
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut has_version = false;
+    let mut key_share = None;
 
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
@@ -209,15 +210,26 @@ pub(crate) fn parse_ser_hel_exts(
         let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
+                if has_version {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
                 versions::parse_ser(ext.data)?;
+                has_version = true;
             },
             x if x == ExtensionType::KeyShare.to_be_bytes() => {
-                maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
+                if key_share.is_some() {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+                key_share = Some(ext.data);
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
-    maybe_aead
+    if !has_version {
+        return Err(TurtlsAlert::MissingExtension);
+    }
+    let key_share = key_share.ok_or(TurtlsAlert::MissingExtension)?;
+    key_share::parse_ser(key_share, shake_crypto, global_state)
 }
 
 pub(crate) fn parse_encrypted_extensions(
-- 
2.43.0


From 48ab40a9624fa04197cc0f64b39026fe3b2a7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 07/33] fix: do not accept unprotected records once keys are
 installed

Records whose outer type was not application_data were passed on without being
decrypted, so anyone on the path could inject handshake messages. Whether a
record was already decrypted is now tracked instead of guessed from its type.
---
 src/record/read.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..f9f7b66 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -31,6 +31,8 @@ pub(super) struct ReadBuf {
     /// This does not include the header.
     len: usize,
     status: ReadStatus,
+    /// Whether the current record has already been decrypted.
+    decrypted: bool,
 }
 
 impl ReadBuf {
@@ -39,6 +41,7 @@ impl ReadBuf {
             buf: [0; RecordLayer::BUF_SIZE],
             len: 0,
             status: ReadStatus::new(),
+            decrypted: false,
         }
     }
 }
@@ -64,6 +67,7 @@ impl RecordLayer {
                         };
                         *bytes_read += new_bytes;
                     }
+                    self.rbuf.decrypted = false;
                     self.rbuf.len = u16::from_be_bytes(
                         self.rbuf.buf[Self::HEADER_SIZE - Self::LEN_SIZE..Self::HEADER_SIZE]
                             .try_into()
@@ -109,10 +113,17 @@ impl RecordLayer {
 
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
-        // Only deprotect the record if it's already protected.
-        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+        // A record must only be deprotected once.
+        if self.rbuf.decrypted {
+            return Ok(());
+        }
+        // Only change_cipher_spec may be sent unprotected.
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
             return Ok(());
         }
+        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
 
         if self.rbuf.len < Self::MIN_PROT_LEN {
             return Err(TurtlsAlert::DecodeError);
@@ -140,6 +151,10 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
+        self.rbuf.decrypted = true;
         Ok(())
     }
 
-- 
2.43.0


From 7de1db8ae1d9967c27c7e0c9ed198d70dd77f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 08/33] fix: allow protected records to be up to 256 bytes
 longer than plaintext

The 2^14 limit applies to the plaintext; full-sized protected records were
refused.
---
 src/record/read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index f9f7b66..48834e7 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -73,7 +73,12 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    let max_len = if self.msg_type() == ContentType::ApplicationData.to_byte() {
+                        Self::MAX_LEN + Self::SUFFIX_SIZE
+                    } else {
+                        Self::MAX_LEN
+                    };
+                    if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
@@ -140,6 +145,10 @@ impl RecordLayer {
 
         self.rbuf.len -= TAG_SIZE;
 
+        if self.rbuf.len > Self::MAX_LEN + size_of::<ContentType>() {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
+
         let Some(padding) = self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len]
             .iter()
             .rev()
-- 
2.43.0


From 1154907272afc42d5dc607342966aecacbd3d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:46 +0000
Subject: [PATCH 09/33] fix: read the alert description only from a complete
 alert record

A shorter record made the description come from whatever was in the buffer.
---
 src/handshake.rs   |  3 +--
 src/record/read.rs | 11 ++++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 3f8e327..12ba66e 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -223,8 +223,7 @@ impl ShakeBuf {
 
     /// Checks that the current record carries handshake data.
     fn check_record(rl: &RecordLayer) -> Result<(), FullError> {
-        rl.check_alert()
-            .map_err(|alert| FullError::recving_alert(alert))?;
+        rl.check_alert()?;
         if rl.msg_type() != ContentType::Handshake.to_byte() {
             return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
         }
diff --git a/src/record/read.rs b/src/record/read.rs
index 48834e7..b28413e 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -1,6 +1,6 @@
 use super::{ContentType, RecordLayer};
 use crate::aead::TlsAead;
-use crate::alert::TurtlsAlert;
+use crate::alert::{AlertMsg, TurtlsAlert};
 use crate::error::FullError;
 use crate::TurtlsError;
 
@@ -200,9 +200,14 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), TurtlsAlert> {
+    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
         if self.msg_type() == ContentType::Alert.to_byte() {
-            Err(TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]))
+            if self.rbuf.len != AlertMsg::SIZE {
+                return Err(FullError::sending_alert(TurtlsAlert::DecodeError));
+            }
+            Err(FullError::recving_alert(TurtlsAlert::from_byte(
+                self.rbuf.buf[Self::HEADER_SIZE + 1],
+            )))
         } else {
             Ok(())
         }
-- 
2.43.0


From 1744bf4f1b942eaac4752e8ba0d207c02e267c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 10/33] fix: grow the handshake buffer instead of panicking

A peer could abort the process by announcing a message longer than the initial
buffer, and so could a configuration with long extensions.
---
 src/handshake.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 12ba66e..073f02f 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -180,18 +180,32 @@ impl ShakeBuf {
     pub(crate) const HEADER_SIZE: usize = size_of::<ShakeType>() + Self::LEN_SIZE;
 
     pub(crate) fn new(max_len: usize) -> Self {
-        // TODO: use new_zeroed_slice or similar once stabilized.
-        let mut buf = Box::new_uninit_slice(Self::INIT_SIZE);
-        buf.fill(MaybeUninit::zeroed());
         Self {
-            // SAFETY: a zeroed integer slice is valid.
-            buf: unsafe { buf.assume_init() },
+            buf: Self::zeroed_buf(Self::INIT_SIZE),
             len: 0,
             max_size: max_len,
             status: ReadStatus::new(),
         }
     }
 
+    fn zeroed_buf(len: usize) -> Box<[u8]> {
+        // TODO: use new_zeroed_slice or similar once stabilized.
+        let mut buf = Box::new_uninit_slice(len);
+        buf.fill(MaybeUninit::zeroed());
+        // SAFETY: a zeroed integer slice is valid.
+        unsafe { buf.assume_init() }
+    }
+
+    /// Makes room for a message with `len` bytes of data, keeping the current contents.
+    fn reserve(&mut self, len: usize) {
+        if Self::HEADER_SIZE + len <= self.buf.len() {
+            return;
+        }
+        let mut buf = Self::zeroed_buf(2 * (Self::HEADER_SIZE + len));
+        buf[..self.buf.len()].copy_from_slice(&self.buf);
+        self.buf = buf;
+    }
+
     pub(crate) fn start(&mut self, msg_type: ShakeType) {
         self.len = 0;
         self.buf[0] = msg_type.to_byte();
@@ -199,17 +213,13 @@ impl ShakeBuf {
     }
 
     pub(crate) fn push(&mut self, value: u8) {
-        if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.reserve(self.len + 1);
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
     }
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
-        if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.reserve(self.len + slice.len());
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
     }
@@ -261,9 +271,10 @@ impl ShakeBuf {
                     }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if self.len > self.max_size {
+                        return Err(FullError::sending_alert(TurtlsAlert::HandshakeFailure));
                     }
+                    self.reserve(self.len);
                     self.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
-- 
2.43.0


From d4633a6c7f5ee2fa319e1bc062c90b4432a2c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 11/33] fix: make interrupted writes resumable

The offset into the message counted record headers, so messages of more than
one record lost data and an interrupted write was resumed at the wrong place.
Resuming also built a new ClientHello (with a new random) and hashed it again,
and a protected record would have been encrypted twice. An alert sent after an
interrupted write was placed in the middle of the unfinished record.
---
 src/handshake.rs    | 14 ++++++----
 src/record/write.rs | 67 +++++++++++++++++++++++++++++++--------------
 src/state.rs        |  1 +
 3 files changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 073f02f..831e68a 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -31,7 +31,9 @@ pub(crate) fn handshake_client(
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
                         .map_err(|err| global_state.error.turtls_error = err)?;
-
+                    *next = UnprotShakeMsg::SendClientHello;
+                },
+                UnprotShakeMsg::SendClientHello => {
                     shake_state
                         .buf
                         .write_raw(&mut global_state.rl, &mut global_state.transcript)
@@ -326,11 +328,12 @@ impl ShakeBuf {
     ) -> Result<(), TurtlsError> {
         self.encode_len();
 
-        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
-        )
+        )?;
+        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+        Ok(())
     }
 
     pub(crate) fn write(
@@ -340,12 +343,13 @@ impl ShakeBuf {
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
         self.encode_len();
-        transcript.update_with(&self.buf);
         rl.write(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
             aead,
-        )
+        )?;
+        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+        Ok(())
     }
 
     /// Returns the type of handshake message the message is.
diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..a06f301 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -14,8 +14,10 @@ pub(super) struct WriteBuf {
     /// This does not include the header.
     len: usize,
     record_bytes: usize,
-    /// The total number of bytes written to IO.
+    /// The number of message bytes that have been written to IO in complete records.
     total_bytes: usize,
+    /// Whether `buf` contains a finished record that has not been completely written to IO.
+    pending: bool,
 }
 
 impl WriteBuf {
@@ -25,6 +27,7 @@ impl WriteBuf {
             len: 0,
             record_bytes: 0,
             total_bytes: 0,
+            pending: false,
         };
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
@@ -44,10 +47,14 @@ impl RecordLayer {
         self.set_msg_type(msg_type);
         while self.wbuf.total_bytes < buf.len() {
             let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN);
-            self.wbuf.buf[Self::HEADER_SIZE..][..record_size]
-                .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
-            self.wbuf.len = record_size;
-            self.finish_raw()?;
+            if !self.wbuf.pending {
+                self.wbuf.buf[Self::HEADER_SIZE..][..record_size]
+                    .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
+                self.wbuf.len = record_size;
+                self.finish_raw();
+            }
+            self.write_record()?;
+            self.wbuf.total_bytes += record_size;
         }
         self.wbuf.total_bytes = 0;
         Ok(())
@@ -60,11 +67,18 @@ impl RecordLayer {
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
         self.set_msg_type(ContentType::ApplicationData);
-        for record in buf[self.wbuf.total_bytes..].chunks(Self::MAX_LEN) {
-            self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
-            self.wbuf.len = record.len();
-            self.finish(msg_type, aead)?;
+        while self.wbuf.total_bytes < buf.len() {
+            let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN);
+            if !self.wbuf.pending {
+                self.wbuf.buf[Self::HEADER_SIZE..][..record_size]
+                    .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
+                self.wbuf.len = record_size;
+                self.finish(msg_type, aead);
+            }
+            self.write_record()?;
+            self.wbuf.total_bytes += record_size;
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -73,18 +87,18 @@ impl RecordLayer {
         self.wbuf.buf[Self::HEADER_SIZE - Self::LEN_SIZE..Self::HEADER_SIZE].copy_from_slice(&len);
     }
 
-    fn finish_raw(&mut self) -> Result<(), TurtlsError> {
+    fn finish_raw(&mut self) {
         self.encode_len();
-        self.write_record()
+        self.wbuf.pending = true;
     }
 
-    fn finish(&mut self, msg_type: ContentType, aead: &mut TlsAead) -> Result<(), TurtlsError> {
+    fn finish(&mut self, msg_type: ContentType, aead: &mut TlsAead) {
         self.wbuf.buf[Self::HEADER_SIZE + self.wbuf.len] = msg_type.to_byte();
         self.wbuf.len += size_of::<ContentType>();
         self.wbuf.len += TAG_SIZE;
         self.encode_len();
         self.protect(aead);
-        self.write_record()
+        self.wbuf.pending = true;
     }
 
     fn write_record(&mut self) -> Result<(), TurtlsError> {
@@ -95,8 +109,17 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
+        self.wbuf.pending = false;
+        Ok(())
+    }
+
+    /// Completes the record that is being written, if any, and abandons the rest of its message.
+    fn abandon_message(&mut self) -> Result<(), TurtlsError> {
+        if self.wbuf.pending {
+            self.write_record()?;
+        }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -109,16 +132,20 @@ impl RecordLayer {
     }
 
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
-        let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        if self.abandon_message().is_ok() {
+            let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        }
         self.io.close();
     }
 
     pub(crate) fn close(&mut self, alert: TurtlsAlert, aead: &mut TlsAead) {
-        let _ = self.write(
-            &AlertMsg::new(alert).to_be_bytes(),
-            ContentType::Alert,
-            aead,
-        );
+        if self.abandon_message().is_ok() {
+            let _ = self.write(
+                &AlertMsg::new(alert).to_be_bytes(),
+                ContentType::Alert,
+                aead,
+            );
+        }
         self.io.close();
     }
 }
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..954ac0a 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -72,6 +72,7 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    SendClientHello,
     ServerHello,
 }
 
-- 
2.43.0


From 6698048b4b80b6eed865351277066908477f04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 12/33] fix: start every connection of a reused object from a
 clean state

The transcript, half-read and half-written records and the negotiated
application protocol of the previous connection were carried over.
---
 src/extensions/app_proto.rs | 1 +
 src/lib.rs                  | 5 ++++-
 src/record.rs               | 6 ++++++
 src/record/read.rs          | 5 +++++
 src/record/write.rs         | 6 ++++++
 src/state.rs                | 9 +++++++++
 6 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..9d3f6d5 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -56,6 +56,7 @@ pub(crate) fn parse_app_proto_client(
     // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
     // a single byte
     alpn_state[..alpn.len()].copy_from_slice(alpn);
+    alpn_state[alpn.len()..].fill(0);
     Ok(())
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 3545854..b52b046 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -79,7 +79,10 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
         match tls_conn.state {
             TlsStatus::None => {
                 match ShakeState::new(&tls_conn.config) {
-                    Ok(state) => tls_conn.state = TlsStatus::Shake(state),
+                    Ok(state) => {
+                        tls_conn.state = TlsStatus::Shake(state);
+                        tls_conn.gloabl_state.reset();
+                    },
                     Err(err) => {
                         tls_conn.gloabl_state.error.turtls_error = err;
                         return -1;
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..363303f 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,10 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Prepares the record layer for a new connection.
+    pub(crate) fn reset(&mut self) {
+        self.rbuf.reset();
+        self.wbuf.reset();
+    }
 }
diff --git a/src/record/read.rs b/src/record/read.rs
index b28413e..2e1fe86 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -44,6 +44,11 @@ impl ReadBuf {
             decrypted: false,
         }
     }
+
+    pub(super) fn reset(&mut self) {
+        self.status = ReadStatus::new();
+        self.decrypted = false;
+    }
 }
 
 impl RecordLayer {
diff --git a/src/record/write.rs b/src/record/write.rs
index a06f301..111dd91 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -32,6 +32,12 @@ impl WriteBuf {
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
     }
+
+    pub(super) fn reset(&mut self) {
+        self.record_bytes = 0;
+        self.total_bytes = 0;
+        self.pending = false;
+    }
 }
 
 impl RecordLayer {
diff --git a/src/state.rs b/src/state.rs
index 954ac0a..d8417fe 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -41,6 +41,15 @@ pub(crate) struct GlobalState {
     pub(crate) app_proto: [u8; 256],
 }
 
+impl GlobalState {
+    /// Discards everything that belongs to a previous connection.
+    pub(crate) fn reset(&mut self) {
+        self.rl.reset();
+        self.transcript = TranscriptHasher::new();
+        self.app_proto = [0; 256];
+    }
+}
+
 pub(crate) enum TlsStatus {
     None,
     Shake(ShakeState),
-- 
2.43.0


From 432386dba723dca6142da90fbca7db8b85e92d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 13/33] fix: close the connection exactly once after a fatal
 error

After a fatal error the connection stayed in the handshake, so turtls_close
sent a second alert and closed again. An alert from the peer did not close the
connection although the documentation of turtls_connect says it does. Once keys
are installed turtls_close now protects its alert.
---
 src/error.rs        |  7 +++++++
 src/handshake.rs    | 18 ++++++++++++------
 src/lib.rs          | 18 ++++++++++++++----
 src/record/write.rs |  5 +++++
 4 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 80f11a2..c60b104 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,6 +32,13 @@ pub enum TurtlsError {
     MissingExtensions,
 }
 
+impl TurtlsError {
+    /// Whether the operation that caused the error can be tried again.
+    pub(crate) const fn is_resumable(&self) -> bool {
+        matches!(self, Self::WantRead | Self::WantWrite)
+    }
+}
+
 impl Default for TurtlsError {
     fn default() -> Self {
         Self::Tls
diff --git a/src/handshake.rs b/src/handshake.rs
index 831e68a..762a06c 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -50,8 +50,10 @@ pub(crate) fn handshake_client(
                             &mut global_state.transcript,
                         )
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close_raw(err.alert);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close_raw(err.alert),
+                                TurtlsError::TlsPeer => global_state.rl.close_io(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -81,8 +83,10 @@ pub(crate) fn handshake_client(
                             &mut global_state.transcript,
                         )
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.close_io(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -104,8 +108,10 @@ pub(crate) fn handshake_client(
                             &mut global_state.transcript,
                         )
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.close_io(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
diff --git a/src/lib.rs b/src/lib.rs
index b52b046..b1b9a2a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,6 +23,7 @@ use crylib::hash::Sha256;
 use crylib::hkdf;
 
 use handshake::handshake_client;
+use state::MaybeProt;
 use state::ShakeState;
 use state::TlsStatus;
 
@@ -98,6 +99,11 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    // An interrupted handshake can be resumed; any other error closed the
+                    // connection.
+                    if !tls_conn.gloabl_state.error.turtls_error.is_resumable() {
+                        tls_conn.state = TlsStatus::None;
+                    }
                     return -1;
                 }
                 todo!()
@@ -121,10 +127,14 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    let rl = &mut tls_conn.gloabl_state.rl;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ref mut shake_state) => match shake_state.state {
+            MaybeProt::Unprot { .. } => rl.close_raw(TurtlsAlert::CloseNotify),
+            MaybeProt::Prot { ref mut aead, .. } => rl.close(TurtlsAlert::CloseNotify, aead),
+        },
+        TlsStatus::App { ref mut aead } => rl.close(TurtlsAlert::CloseNotify, aead),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
diff --git a/src/record/write.rs b/src/record/write.rs
index 111dd91..0dabee8 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -137,6 +137,11 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Closes the connection without sending an alert.
+    pub(crate) fn close_io(&self) {
+        self.io.close();
+    }
+
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
         if self.abandon_message().is_ok() {
             let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
-- 
2.43.0


From d242548148863ff9d2a7e0c65fc77cd534f13bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 14/33] fix: close the connection when the handshake cannot be
 started

turtls_connect documents that every error closes the connection.
---
 src/handshake.rs | 8 ++++++--
 src/lib.rs       | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 762a06c..348f1a4 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -29,8 +29,12 @@ pub(crate) fn handshake_client(
             } => match next {
                 UnprotShakeMsg::ClientHello => {
                     // Don't send alert because handshake hasn't started.
-                    client_hello_client(unprot_state, &mut shake_state.buf, config)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                    client_hello_client(unprot_state, &mut shake_state.buf, config).map_err(
+                        |err| {
+                            global_state.rl.close_io();
+                            global_state.error.turtls_error = err;
+                        },
+                    )?;
                     *next = UnprotShakeMsg::SendClientHello;
                 },
                 UnprotShakeMsg::SendClientHello => {
diff --git a/src/lib.rs b/src/lib.rs
index b1b9a2a..cc187a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -86,6 +86,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                     },
                     Err(err) => {
                         tls_conn.gloabl_state.error.turtls_error = err;
+                        tls_conn.gloabl_state.rl.close_io();
                         return -1;
                     },
                 }
-- 
2.43.0


From 03dc176c21345e84579b9abc07e76e0dc420fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 15/33] fix: count only the algorithms that are written in
 ClientHello lengths

Bits of the configuration that do not name a supported algorithm, and an empty
list of signature algorithms, made the length fields of the ClientHello
disagree with its contents.
---
 src/cipher_suites.rs        |  4 +++-
 src/extensions/key_share.rs | 11 +++++++----
 src/extensions/sig_algs.rs  |  7 +++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..8a8ab09 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -22,8 +22,10 @@ impl TurtlsCipherList {
 
     pub(crate) const LEN_SIZE: usize = 2;
 
+    const SUPPORTED: u8 = Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256;
+
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        (self.suites & Self::SUPPORTED).count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 75a6bf3..bce5212 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -60,7 +60,7 @@ pub(crate) struct GroupKeys {
 
 impl GroupKeys {
     pub(crate) fn generate(groups: u16) -> Result<Self, TurtlsError> {
-        if groups == 0 {
+        if groups & TURTLS_SECP256R1 == 0 {
             return Err(TurtlsError::MissingExtensions);
         }
         let mut buf = [0; 32];
@@ -92,7 +92,7 @@ impl TurtlsExts {
     }
 
     pub(super) fn write_key_share_client(&self, shake_buf: &mut ShakeBuf, keys: &GroupKeys) {
-        if self.sup_groups == 0 {
+        if self.sup_groups & TURTLS_SECP256R1 == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::KeyShare.to_be_bytes());
@@ -122,11 +122,14 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        if self.sup_groups & TURTLS_SECP256R1 == 0 {
+            return 0;
+        }
+        Self::LEN_SIZE + size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
-        if self.sup_groups == 0 {
+        if self.sup_groups & TURTLS_SECP256R1 == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::SupportedGroups.to_be_bytes());
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..00c6396 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,11 +57,14 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        if self.sig_algs & TURTLS_ECDSA_SECP256R1 == 0 {
+            return 0;
+        }
+        size_of::<SignatureScheme>() + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
-        if self.sig_algs == 0 {
+        if self.sig_algs & TURTLS_ECDSA_SECP256R1 == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::SignatureAlgorithms.to_be_bytes());
-- 
2.43.0


From acc3882bf52fe272a7dedc7bd7da3ff898b9eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 16/33] fix: refuse extensions that are too long for the
 ClientHello

The length fields of the server name, the application protocols and the
extension list were truncated to 16 bits, or made turtls_connect panic.
---
 include/turtls.h    | 4 ++++
 src/client_hello.rs | 8 ++++++--
 src/error.rs        | 2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/turtls.h b/include/turtls.h
index c4aba4c..bebc57b 100644
--- a/include/turtls.h
+++ b/include/turtls.h
@@ -173,6 +173,10 @@ enum TurtlsError {
      * One or more required extensions are missing.
      */
     TURTLS_ERROR_MISSING_EXTENSIONS,
+    /**
+     * The configured extensions do not fit into a handshake message.
+     */
+    TURTLS_ERROR_EXTENSIONS_TOO_LONG,
 };
 
 /**
diff --git a/src/client_hello.rs b/src/client_hello.rs
index 32fe6c4..04498dc 100644
--- a/src/client_hello.rs
+++ b/src/client_hello.rs
@@ -14,6 +14,11 @@ pub(crate) fn client_hello_client(
     shake_buf: &mut ShakeBuf,
     config: &TurtlsConfig,
 ) -> Result<(), TurtlsError> {
+    // The server name and the application protocols must fit into their length fields.
+    let Ok(exts_len) = u16::try_from(config.extensions.len_client()) else {
+        return Err(TurtlsError::ExtensionsTooLong);
+    };
+
     shake_buf.start(ShakeType::ClientHello);
 
     shake_buf.extend_from_slice(&LEGACY_PROTO_VERS.to_be_bytes());
@@ -33,8 +38,7 @@ pub(crate) fn client_hello_client(
 
     shake_buf.extend_from_slice(&LEGACY_COMPRESSION_METHODS);
 
-    let len = (config.extensions.len_client() as u16).to_be_bytes();
-    shake_buf.extend_from_slice(&len);
+    shake_buf.extend_from_slice(&exts_len.to_be_bytes());
     config
         .extensions
         .write_client(shake_buf, &unprot_state.priv_keys);
diff --git a/src/error.rs b/src/error.rs
index c60b104..f309f27 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -30,6 +30,8 @@ pub enum TurtlsError {
     PrivKeyIsZero,
     /// One or more required extensions are missing.
     MissingExtensions,
+    /// The configured extensions do not fit into a handshake message.
+    ExtensionsTooLong,
 }
 
 impl TurtlsError {
-- 
2.43.0


From dd6164c5289501b627377416c2da99507a40934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 17/33] fix: check that the private key is not zero after
 reducing it

A random value equal to the group order passed the check and made the
following point multiplication panic.
---
 src/extensions/key_share.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index bce5212..e63ad93 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -66,15 +66,14 @@ impl GroupKeys {
         let mut buf = [0; 32];
         getrandom(&mut buf).map_err(|_| TurtlsError::Rng)?;
 
-        if buf == [0; 32] {
-            return Err(TurtlsError::PrivKeyIsZero);
-        }
-
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+
+        if secp256r1.into_inner() == UBigInt::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        return Ok(Self { secp256r1 });
     }
 }
 
-- 
2.43.0


From c731eb695bc0f53bb1f7f21c40fc8171d89ee55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 18/33] fix: report malformed certificates instead of panicking

A truncated Certificate message, or a certificate that does not parse, aborted
the process.
---
 src/handshake.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 348f1a4..6a002d1 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,6 +1,8 @@
 use std::mem::MaybeUninit;
 
 use crate::aead::TlsAead;
+use crate::certificates::x509::validate_cert;
+use crate::certificates::CertIter;
 use crate::client_hello::client_hello_client;
 use crate::config::TurtlsConfig;
 use crate::error::{FullError, TurtlsError};
@@ -119,15 +121,10 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
+                    validate_certificates(shake_state.buf.data()).map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     todo!("validate certificates");
                 },
                 _ => todo!("Finish handshake"),
@@ -136,6 +133,22 @@ pub(crate) fn handshake_client(
     }
 }
 
+/// Parses the Certificate message and checks each certificate in it.
+fn validate_certificates(cert_msg: &[u8]) -> Result<(), TurtlsAlert> {
+    let (&context_len, cert_msg) = cert_msg.split_first().ok_or(TurtlsAlert::DecodeError)?;
+    if cert_msg.len() < context_len as usize + 3 {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let (len, certs) = cert_msg[context_len as usize..].split_at(3);
+    if u32::from_be_bytes([0, len[0], len[1], len[2]]) as usize != certs.len() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    for cert in CertIter::new(certs) {
+        validate_cert(cert.data).map_err(|_| TurtlsAlert::BadCert)?;
+    }
+    Ok(())
+}
+
 /// The message type of a handshake message.
 #[derive(Debug, PartialEq, Eq)]
 #[expect(unused, reason = "not all handshake messages are implemented yet")]
-- 
2.43.0


From 8c77c013439dc258994ca25af7356020ee91a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 19/33] fix: parse the integers of a certificate completely

An empty signature and version 255 panicked, r and s of fewer than 32 bytes
were refused, and the leading bytes of longer ones were dropped without
checking that they are zero.
---
 src/certificates/x509.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..7405f7c 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -27,11 +27,11 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    let Some((&0, sig_data)) = signature.data.split_first() else {
         // there should never be unused bits
         return Err(CertError::ParseError);
-    }
-    let sig_obj = DerIter::new(&signature.data[1..]).next().ok_or(CertError::ParseError)?;
+    };
+    let sig_obj = DerIter::new(sig_data).next().ok_or(CertError::ParseError)?;
     if sig_obj.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
     }
@@ -42,9 +42,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
+    let r = parse_scalar(r_obj.data)?;
     let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
 
     let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
@@ -52,14 +50,26 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
+    let s = parse_scalar(s_obj.data)?;
     let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
 
     Ok(Signature::new(r, s))
 }
 
+/// Parses a non-negative integer of at most 256 bits.
+fn parse_scalar(int: &[u8]) -> Result<UBigInt<4>, CertError> {
+    let mut bytes = [0; 32];
+    let leading_bytes = int.len().saturating_sub(bytes.len());
+    // a negative integer has its first bit set
+    if int.is_empty() || int[0] > 127 || int[..leading_bytes].iter().any(|&byte| byte != 0) {
+        return Err(CertError::ParseError);
+    }
+    let int = &int[leading_bytes..];
+    let start = bytes.len() - int.len();
+    bytes[start..].copy_from_slice(int);
+    Ok(UBigInt::<4>::from_be_bytes(bytes))
+}
+
 fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     if tbs_cert.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
@@ -75,7 +85,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        version = vers.data[0].saturating_add(1);
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
-- 
2.43.0


From 35057b7e188ba1f75d852e1856ac3b7581967d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 20/33] fix: do not hash an empty block in GCM

Data whose length is a multiple of the block size, and empty data, got an extra
zero block in GHASH, which made the tag differ from every other implementation
(for example in NIST's test cases 2 to 4).
---
 crylib/src/aead/gcm.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..5463492 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -159,13 +159,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -175,13 +173,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From 09a823687e01b397311a7d8019bc3cb8306c5e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 21/33] fix: hash HMAC keys that are longer than a block

The part of the key that did not fit into a block was ignored.
---
 crylib/src/hmac.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crylib/src/hmac.rs b/crylib/src/hmac.rs
index 1042448..e7c0a15 100644
--- a/crylib/src/hmac.rs
+++ b/crylib/src/hmac.rs
@@ -18,6 +18,13 @@ where
     pub fn new(key: &[u8]) -> Self {
         let mut ipad = [0x36; B_LEN];
         let mut opad = [0x5c; B_LEN];
+        let hashed_key;
+        let key = if key.len() > B_LEN {
+            hashed_key = H::hash(key);
+            &hashed_key
+        } else {
+            key
+        };
         for ((ipad_byte, opad_byte), key_byte) in ipad.iter_mut().zip(opad.iter_mut()).zip(key) {
             *ipad_byte ^= key_byte;
             *opad_byte ^= key_byte;
-- 
2.43.0


From 74fb858d1b17eb778d9d82c23def55e4ba57bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 22/33] fix: make the ordering of BigInt agree with its
 comparison operators

cmp returned the opposite of what < and > decide.
---
 crylib/src/big_int/signed.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 417568f..5685de3 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -299,9 +299,9 @@ impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
         let cmped = self.sub(other);
         match cmped.is_negative {
-            true => core::cmp::Ordering::Greater,
-            false if self.digits == other.digits => core::cmp::Ordering::Equal,
-            false => core::cmp::Ordering::Less,
+            true => core::cmp::Ordering::Less,
+            false if self == other => core::cmp::Ordering::Equal,
+            false => core::cmp::Ordering::Greater,
         }
     }
 }
-- 
2.43.0


From a274523fd166926583c58d7e27f210c639bfb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 23/33] fix: implement AsRef<UBigInt<N>> for [u64; N]

It always panicked.
---
 crylib/src/big_int/unsigned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 15af54a..2b29e78 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -944,7 +944,7 @@ impl<const N: usize> AsMut<[u64; N]> for UBigInt<N> {
 
 impl<const N: usize> AsRef<UBigInt<N>> for [u64; N] {
     fn as_ref(&self) -> &UBigInt<N> {
-        todo!()
+        UBigInt::from_ref(self)
     }
 }
 
-- 
2.43.0


From 8c9d19fcd0ff3c5a9466f039d16f6fd005b26cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 24/33] fix: start every attempt at an ECDSA signature from the
 message hash

A rejected attempt left its changes in the hash, so the next attempt produced
an invalid signature. A zero nonce was inverted, which panics.
---
 crylib/src/ec/ecdsa.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..a4941c1 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,12 +51,14 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
         let secret_num = random_num_gen();
-        let mut inverse = secret_num.inverse();
+        if secret_num == FieldElement::ZERO {
+            continue;
+        }
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
             continue;
@@ -64,11 +66,10 @@ pub fn sign<C: EllipticCurve>(
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        let s = secret_num.inverse().mul(&hash.add(&r.mul(priv_key)));
 
-        if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
-            return Signature::new(r, inverse);
+        if r != FieldElement::ZERO && s != FieldElement::ZERO {
+            return Signature::new(r, s);
         }
     }
 }
-- 
2.43.0


From 8c94323cc1e55b24999470d5a0d6c7261bcfac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 25/33] fix: reject ECDSA signatures whose r or s is zero

The standard requires both to be at least 1. Inverting a zero s panics.
---
 crylib/src/ec/ecdsa.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index a4941c1..ea8718d 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -81,6 +81,10 @@ pub fn verify_signature<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     sig: &Signature<C::Order>,
 ) -> Result<ValidSig, InvalidSig> {
+    if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO {
+        return Err(InvalidSig);
+    }
+
     let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
     let inverse = sig.s.inverse();
-- 
2.43.0


From ba9424887eaea1e2e41fc150e1861d122a11d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 26/33] fix: leave the rest of the buffer alone in
 chacha20::encrypt

Bytes after the message were xored with the key stream, which disclosed it
where the buffer was zeroed.
---
 crylib/src/aead/chacha/chacha20.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crylib/src/aead/chacha/chacha20.rs b/crylib/src/aead/chacha/chacha20.rs
index 591a09f..2ba9c2e 100644
--- a/crylib/src/aead/chacha/chacha20.rs
+++ b/crylib/src/aead/chacha/chacha20.rs
@@ -123,7 +123,8 @@ pub fn encrypt_inline(msg: &mut [u8], key: &[u8; 32], nonce: &[u8; 12], start_c:
 /// WARNING: users MUST NOT use the same `nonce`
 /// more than once with the same key
 pub fn encrypt(msg: &[u8], key: &[u8; 32], nonce: &[u8; 12], counter: u32, buf: &mut [u8]) {
-    buf[..msg.len()].copy_from_slice(msg);
+    let buf = &mut buf[..msg.len()];
+    buf.copy_from_slice(msg);
     encrypt_inline(buf, key, nonce, counter);
 }
 
-- 
2.43.0


From f23bfdbcf8a613e778db788d4e0e65c88b3bbc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 27/33] fix: do not branch on the carry in constant-time
 arithmetic

Lazy boolean operators skip their right operand depending on secret data.
---
 crylib/src/big_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crylib/src/big_int.rs b/crylib/src/big_int.rs
index 6ade589..8ce84fd 100644
--- a/crylib/src/big_int.rs
+++ b/crylib/src/big_int.rs
@@ -42,7 +42,7 @@ impl core::error::Error for FromNegErr {}
 pub(crate) const fn carry_add(x: u64, y: u64, carry: bool) -> (u64, bool) {
     let (sum1, overflowed1) = x.overflowing_add(y);
     let (sum2, overflowed2) = sum1.overflowing_add(carry as u64);
-    (sum2, overflowed1 || overflowed2)
+    (sum2, overflowed1 | overflowed2)
 }
 
 pub(crate) const fn carry_mul(x: u64, y: u64, carry: u64) -> (u64, u64) {
@@ -53,7 +53,7 @@ pub(crate) const fn carry_mul(x: u64, y: u64, carry: u64) -> (u64, u64) {
 pub(crate) const fn carry_sub(x: u64, y: u64, carry: bool) -> (u64, bool) {
     let (diff1, overflowed1) = x.overflowing_sub(y);
     let (diff2, overflowed2) = diff1.overflowing_sub(carry as u64);
-    (diff2, overflowed1 || overflowed2)
+    (diff2, overflowed1 | overflowed2)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7553aa21b003b4c2b5fa2e637021053111d764be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 28/33] fix: make UBigInt::left_align constant-time as
 documented

It indexed the digits by the number of digits of the value.
---
 crylib/src/big_int/unsigned.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 2b29e78..0203c3e 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -374,9 +374,14 @@ impl<const N: usize> UBigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn left_align(&mut self) -> u64 {
-        let num_digits = self.count_digits();
-        assert_ne!(num_digits, 0);
-        let left_shift = self.0[num_digits - 1].leading_zeros() as u64;
+        // Select the most significant digit that isn't zero without branching on or indexing by it.
+        let mut top_digit = 0;
+        for digit in self.0 {
+            let mask = ((digit != 0) as u64).wrapping_neg();
+            top_digit = (top_digit & !mask) | (digit & mask);
+        }
+        assert_ne!(top_digit, 0);
+        let left_shift = top_digit.leading_zeros() as u64;
         self.shift_left_assign(left_shift);
         left_shift
     }
-- 
2.43.0


From 0f693b23fc92d782a7381f5a5982cd034668a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 29/33] fix: reject empty records

---
 src/record/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/record/read.rs b/src/record/read.rs
index 2e1fe86..9a099bb 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -86,6 +86,10 @@ impl RecordLayer {
                     if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
+                    // Every record must carry data.
+                    if self.rbuf.len == 0 {
+                        return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+                    }
                     self.rbuf.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut bytes_read) => {
-- 
2.43.0


From 051edee67d7d15086dd9c48bfebc7d4fe1108d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 30/33] fix: reject protected records without content

---
 src/record/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/record/read.rs b/src/record/read.rs
index 9a099bb..31073cd 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -172,6 +172,10 @@ impl RecordLayer {
         if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
             return Err(TurtlsAlert::UnexpectedMessage);
         }
+        // Only application data may be empty.
+        if self.rbuf.len == 0 && self.msg_type() != ContentType::ApplicationData.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
         self.rbuf.decrypted = true;
         Ok(())
     }
-- 
2.43.0


From 639f380b17ccf7cec3126b5e43f35d0b2a64a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 31/33] fix: only accept change_cipher_spec records that
 consist of the byte 1

---
 src/handshake.rs   | 1 +
 src/record/read.rs | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 6a002d1..4d6f541 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -278,6 +278,7 @@ impl ShakeBuf {
                     if *amt == 0 {
                         get_fn(rl)?;
                         if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+                            rl.check_change_cipher_spec()?;
                             rl.discard();
                             get_fn(rl)?;
                         }
diff --git a/src/record/read.rs b/src/record/read.rs
index 31073cd..4d36b7a 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -213,6 +213,14 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
+    /// Checks that the current record is a valid change_cipher_spec.
+    pub(crate) fn check_change_cipher_spec(&self) -> Result<(), FullError> {
+        if self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] != [1] {
+            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+        }
+        Ok(())
+    }
+
     pub(crate) fn check_alert(&self) -> Result<(), FullError> {
         if self.msg_type() == ContentType::Alert.to_byte() {
             if self.rbuf.len != AlertMsg::SIZE {
-- 
2.43.0


From 726350d20e4f3ba49c8af1b3f8f6a68c51853a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 32/33] fix: make BigInt::is_positive constant-time, as
 documented

---
 crylib/src/big_int/signed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 5685de3..e710ef4 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -152,7 +152,7 @@ impl<const N: usize> BigInt<N> {
     /// This is a constant-time operation.
     #[inline]
     pub fn is_positive(&self) -> bool {
-        !self.is_negative & (self.digits != UBigInt::ZERO)
+        !self.is_negative & (self.digits.count_digits() != 0)
     }
 
     /// Converts `self` into its one's compliment
-- 
2.43.0


From 548f5a03b6a0a705ee6595ddbe8e78f5809420de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 33/33] fix: refuse extensions in EncryptedExtensions that were
 not offered

---
 src/extensions.rs             |  6 ++++--
 src/extensions/app_proto.rs   |  2 +-
 src/extensions/server_name.rs |  2 +-
 src/handshake.rs              | 16 ++++++++++------
 src/state.rs                  |  6 ++++++
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 8338375..514b0c9 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -234,6 +234,8 @@ pub(crate) fn parse_ser_hel_exts(
 
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
+    sent_server_name: bool,
+    sent_app_protos: bool,
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
     if exts.len() < TurtlsExts::LEN_SIZE {
@@ -250,10 +252,10 @@ pub(crate) fn parse_encrypted_extensions(
         let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
-            x if x == ExtensionType::ServerName.to_be_bytes() => (),
+            x if x == ExtensionType::ServerName.to_be_bytes() && sent_server_name => (),
             // SupportedGroups from server is ignored
             x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
-            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
+            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() && sent_app_protos => {
                 parse_app_proto_client(ext.data, &mut global_state.app_proto)?
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 9d3f6d5..d73bb30 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -7,7 +7,7 @@ use std::ffi::c_char;
 use std::ptr::null;
 
 impl TurtlsExts {
-    pub(super) fn app_protos_len(&self) -> usize {
+    pub(crate) fn app_protos_len(&self) -> usize {
         if self.app_protos.is_null() || self.app_protos_len == 0 {
             return 0;
         }
diff --git a/src/extensions/server_name.rs b/src/extensions/server_name.rs
index 13f425c..1ae0032 100644
--- a/src/extensions/server_name.rs
+++ b/src/extensions/server_name.rs
@@ -7,7 +7,7 @@ use crate::handshake::ShakeBuf;
 const SERVER_NAME_TYPE: u8 = 0;
 
 impl TurtlsExts {
-    pub(super) fn server_name_len(&self) -> usize {
+    pub(crate) fn server_name_len(&self) -> usize {
         if self.server_name.is_null() {
             return 0;
         }
diff --git a/src/handshake.rs b/src/handshake.rs
index 4d6f541..b6b0970 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -96,12 +96,16 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
-                        |alert| {
-                            global_state.rl.close(alert, aead);
-                            global_state.error = FullError::sending_alert(alert);
-                        },
-                    )?;
+                    parse_encrypted_extensions(
+                        shake_state.buf.data(),
+                        shake_state.sent_server_name,
+                        shake_state.sent_app_protos,
+                        global_state,
+                    )
+                    .map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     *next = ProtShakeMsg::Certificate;
                 },
                 ProtShakeMsg::Certificate => {
diff --git a/src/state.rs b/src/state.rs
index d8417fe..4350cd3 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -100,6 +100,10 @@ pub(crate) enum ProtShakeMsg {
 
 pub(crate) struct ShakeState {
     pub(crate) state: MaybeProt,
+    /// Whether the ClientHello has a server_name extension.
+    pub(crate) sent_server_name: bool,
+    /// Whether the ClientHello has an application_layer_protocol_negotiation extension.
+    pub(crate) sent_app_protos: bool,
     pub(crate) buf: ShakeBuf,
 }
 
@@ -115,6 +119,8 @@ impl ShakeState {
                     ciphers: config.cipher_suites,
                 },
             },
+            sent_server_name: config.extensions.server_name_len() != 0,
+            sent_app_protos: config.extensions.app_protos_len() != 0,
             buf: ShakeBuf::new(0x20000),
         })
     }
-- 
2.43.0

