From 8c63063f40008238d2e57b075908fcc81cd6a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 01/31] fix: cache only the bytes actually read while parsing a
 header

A reader may return fewer bytes than the buffer holds. The caching reader
recorded the whole buffer, so the header checksum failed for any source
that delivers short reads.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..39dfb2c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend(buf[..size].iter().cloned());
         Ok(size)
     }
 }
-- 
2.43.0


From 6e89b76c159152e2f83a7faa5e6478b27b9eb967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 02/31] fix: never hand out bytes of a block that failed
 authentication

The block was read straight into the reader's buffer. A read after a failed
or interrupted block then returned unauthenticated bytes.
---
 src/stream/hmac.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..1ba5a2c 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -31,18 +31,20 @@ impl<R: io::Read> HMacReader<R> {
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
         let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        let mut block = Vec::new();
+        block.resize_with(len, Default::default);
+        self.inner.read_exact(&mut block)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
-            .verify_data_block(&hmac, &self.buffer)
+            .verify_data_block(&hmac, &block)
         {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("HMAC validation failed for block {}", self.block_idx),
             ));
         }
+        self.buffer = block;
         self.buf_idx = 0;
         self.block_idx += 1;
         Ok(len)
-- 
2.43.0


From 7f5b4be140a7aedaf489b53fddc7004bb1ddcb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 03/31] fix: do not return block cipher padding as data

After the last block the reader treated the rest of the 16 byte buffer as
unread data, so the padding bytes followed the decrypted content.
---
 src/stream/block_cipher.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..eb15237 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -52,6 +54,7 @@ where
 {
     fn buffer_next_block(&mut self) -> io::Result<usize> {
         self.buf_idx = 0;
+        self.buf_len = 0;
         let mut buffered_bytes = 0;
 
         if let Some(byte) = self.peek_byte {
@@ -94,10 +97,11 @@ where
         if self.peek_byte.is_none() {
             let unpadded = Pkcs7::unpad(&self.buffer)
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Bad padding"))?;
-            Ok(unpadded.len())
+            self.buf_len = unpadded.len();
         } else {
-            Ok(buffered_bytes)
+            self.buf_len = buffered_bytes;
         }
+        Ok(self.buf_len)
     }
 }
 
@@ -107,7 +111,7 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
+        let mut remaining_in_buffer = self.buf_len - self.buf_idx;
 
         if remaining_in_buffer == 0 || self.first_read {
             remaining_in_buffer = self.buffer_next_block()?;
-- 
2.43.0


From 4e12bf9fb7166904ade70e891ecf2fe6804581da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 04/31] fix: write out a full HMAC block before accepting more
 data

When earlier writes had filled the buffer exactly, the next write accepted
zero bytes and saving failed with a WriteZero error. Any AES or Twofish
archive with more than 1 MiB of content was affected.
---
 src/stream/hmac.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 1ba5a2c..147bce4 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -123,6 +123,9 @@ where
 
 impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
+            self.write_block()?;
+        }
         let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
         let write_size = usize::min(buf.len(), space_in_buffer);
         self.buffer.extend_from_slice(&buf[0..write_size]);
-- 
2.43.0


From ac1caf8d2101f21ac4eeeda5454529cb92f653fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 05/31] fix: do not emit an end marker when flushing an empty
 block

An empty HMAC block ends the stream. Flushing with nothing buffered wrote
one in the middle of the data, so some gzip compressed archives could not
be opened again.
---
 src/stream/hmac.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 147bce4..cb671b4 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -138,7 +138,9 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
+        if !self.buffer.is_empty() {
+            self.write_block()?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 8dcad2ec83bbb2116c5b26f964a2759b06e300bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 06/31] fix: read the OTP period from the period parameter

---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..acfd3f0 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From f1845a5216f460bfa60ca8c9af631d4c19d5ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 07/31] fix: keep a cleared protected field protected

An empty field that should be protected when filled reported itself as
unprotected, so clearing it and setting a new value dropped the protection.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index acfd3f0..0620443 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
-- 
2.43.0


From 8b1efd4573c8a4b0663c619bbd40f4a3015baedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 08/31] fix: keep the protection of empty fields when saving
 and loading

---
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..1f2c132 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -134,6 +134,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if protected {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..e074884 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -58,10 +58,14 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
-- 
2.43.0


From 730df682536fbcd5f32b093b7e0b95607fcef04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 09/31] fix: refuse to derive keys with an unknown KDF

An unknown KDF produced an empty master key, so the archive was encrypted
with keys that did not depend on the credentials.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..f8d6452 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -107,7 +107,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            _ => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From 8c8ab8bc703b7f01e38d7623d918933305635926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 10/31] fix: reject Argon2 costs that do not fit instead of
 truncating them

---
 src/crypto.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f8d6452..4fd2d77 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -79,8 +79,10 @@ impl ComposedKey {
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
+                    time_cost: u32::try_from(*iterations)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From 8194f2a1497ab7deb9bc5e6ec6a1119a5cd8f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:47 +0000
Subject: [PATCH 11/31] fix: report an AES KDF seed of the wrong length instead
 of panicking

---
 src/crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 4fd2d77..f7fd3c3 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -92,7 +92,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
-- 
2.43.0


From a27c53fe4877b90be50199329fbffcfc6e326e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 12/31] fix: report negative lengths in a variant dictionary
 instead of panicking

---
 src/binary/variant_dict.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..8184cbb 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -146,18 +146,23 @@ type Result<T> = std::result::Result<T, VariantParseError>;
 /// Map of values from KDBX header with differing types
 pub type VariantDict = std::collections::HashMap<String, Value>;
 
+fn entry_length(length: i32) -> io::Result<usize> {
+    usize::try_from(length)
+        .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Negative length in dictionary"))
+}
+
 fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, Value)> {
     let mut length_buffer = [0u8; 4];
 
     input.read_exact(&mut length_buffer)?;
     let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
+    let mut key_buffer: Vec<u8> = buffer(entry_length(key_length)?);
     input.read_exact(&mut key_buffer)?;
     let key = String::from_utf8(key_buffer)?;
 
     input.read_exact(&mut length_buffer)?;
     let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
+    let mut value_buffer: Vec<u8> = buffer(entry_length(value_length)?);
     input.read_exact(&mut value_buffer)?;
 
     let value = Value::from_bytes(ty, value_buffer)?;
-- 
2.43.0


From 543441591ac8c66587a1ba1c85a781ba57f1c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 13/31] fix: report header fields that are too short instead of
 panicking

---
 src/binary/header.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..fb54e5d 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -274,10 +274,10 @@ impl KdbxHeaderBuilder {
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
-                .map(|h| {
+                .and_then(|h| {
                     let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
+                    buf.clone_from_slice(h.data.get(0..8)?);
+                    Some(u64::from_le_bytes(buf))
                 });
             let seed = self
                 .other_headers
@@ -446,6 +446,11 @@ impl KdbxInnerHeaderBuilder {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
                 let d = header.data;
+                if d.len() < 4 {
+                    return Err(Error::MissingRequiredInnerField(
+                        InnerHeaderId::InnerRandomStreamCipherId,
+                    ));
+                }
                 self.inner_stream_cipher =
                     Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
             }
@@ -502,7 +507,12 @@ impl KdbxInnerHeader {
             .data
             .clone();
         let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
+        cipher_id_buf.clone_from_slice(cipher.get(0..4).ok_or_else(|| {
+            Error::MalformedField(
+                OuterHeaderId::InnerRandomStreamId,
+                "Wrong size for inner stream ID".into(),
+            )
+        })?);
         let cipher_id = u32::from_le_bytes(cipher_id_buf);
 
         Ok(KdbxInnerHeader {
-- 
2.43.0


From d35777d0bb330d3ff6d1c28eb33691b947eac70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 14/31] fix: report missing KDBX 3 start bytes instead of
 panicking

---
 src/binary/kdbx.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..2c1ca77 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -343,7 +343,9 @@ impl Kdbx<Locked> {
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            self.header().stream_start_bytes.as_ref().ok_or(
+                errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+            )?,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
-- 
2.43.0


From 18ac75527871e9b19fedc59241e99433762d1b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 15/31] fix: report a ChaCha20 IV of the wrong length instead
 of panicking

---
 src/stream/pipeline.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..cbcea31 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -51,7 +51,12 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid cipher params - Could not create ChaCha20 stream",
+                )
+            })?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +248,12 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid cipher params - Could not create ChaCha20 stream",
+                )
+            })?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
-- 
2.43.0


From daed06c241522c8e7bcfd40a6d707305ca21a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 16/31] fix: reject out of range timestamps instead of
 panicking

---
 src/xml/decoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..f125f7c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -22,7 +22,7 @@ pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let mut bytes = [0u8; 8];
     let copy_size = usize::min(bytes.len(), decoded.len());
     bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From 2bea589ee7f97afd52a39f1fe7f6dd7773a69e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 17/31] fix: report Argon2i as unsupported when writing instead
 of panicking

---
 src/binary/header.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index fb54e5d..bc14ecf 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -404,6 +404,16 @@ impl KdbxHeader {
 
     pub(crate) fn write<W: Write>(&self, mut writer: W) -> std::io::Result<()> {
         use std::iter::once;
+        if let header_fields::KdfParams::Argon2 {
+            variant: argon2::Variant::Argon2i,
+            ..
+        } = self.kdf_params
+        {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Argon2i cannot be stored in a KDBX header",
+            ));
+        }
         let headers = self
             .other_headers
             .iter()
-- 
2.43.0


From a06811b079d358f502e78b19ab2715beb2e1d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 18/31] fix: reject database XML without a root group

Such a database panicked on the first access to its root group.
---
 src/xml/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 1f2c132..1bbfc66 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -358,6 +358,9 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             _ => {}
         }
     }
+    if db.groups.is_empty() {
+        return Err(Error::Xml("Database has no root group".to_string()));
+    }
     Ok(db)
 }
 
-- 
2.43.0


From 8a5c518ee556130bdb0a67cfbcfe673f7b44990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 19/31] fix: never hand out bytes of a KDBX 3 block that failed
 verification

---
 src/stream/kdbx3.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..6a7ca5a 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -30,10 +30,12 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
-        self.buf_idx = 0;
-        if crypto::verify_sha256(&self.buffer, &hash_buf) {
+        let mut block = Vec::new();
+        block.resize_with(len, Default::default);
+        self.inner.read_exact(&mut block)?;
+        if crypto::verify_sha256(&block, &hash_buf) {
+            self.buffer = block;
+            self.buf_idx = 0;
             Ok(len)
         } else {
             Err(io::Error::new(
-- 
2.43.0


From 216ec1f80b4763087e0dd4df1f01bfa7e5f38899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 20/31] fix: accept the end marker of KDBX 3 block streams

The last block is empty and carries an all zero hash. It was treated as
corrupt, so uncompressed KDBX 3 archives could not be opened.
---
 src/stream/kdbx3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 6a7ca5a..9e9c238 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -33,7 +33,7 @@ where
         let mut block = Vec::new();
         block.resize_with(len, Default::default);
         self.inner.read_exact(&mut block)?;
-        if crypto::verify_sha256(&block, &hash_buf) {
+        if (len == 0 && hash_buf == [0u8; 32]) || crypto::verify_sha256(&block, &hash_buf) {
             self.buffer = block;
             self.buf_idx = 0;
             Ok(len)
-- 
2.43.0


From 0c6285d4c1b221dace0dbcdfb6eaa222e94659e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 21/31] fix: write a locked archive with the header it was read
 with

The header was serialized again in this library's field order while the
stored HMAC still covered the original bytes, so the copy could not be
unlocked.
---
 src/binary/kdbx.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 2c1ca77..e38d961 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -281,16 +281,9 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
-- 
2.43.0


From e619586bc77ee387fcf6b46929a919a83b45456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 22/31] fix: refuse to write unlocked KDBX 3 archives

The content was written in the KDBX 4 layout under a KDBX 3 version number.
No reader could open the result.
---
 src/binary/kdbx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index e38d961..a03dbf7 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -141,6 +141,12 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        if self.major_version < 4 {
+            return Err(errors::WriteError::Io(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Writing unlocked KDBX 3 archives is not supported",
+            )));
+        }
         let master_key = self
             .master_key
             .as_ref()
-- 
2.43.0


From 552d383cf10d2bc48bcfb1e05c3b32a01a9c1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 23/31] fix: keep leading and trailing whitespace of stored
 text

The XML reader trimmed every text value, so notes that ended in a newline
and values made of spaces changed when a database was saved and opened.
---
 src/xml/parse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 1bbfc66..7b953ba 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -65,7 +65,7 @@ macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
             parse_string(xml_event_reader)?
-                .map(|num| num.parse())
+                .map(|num| num.trim().parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
         }
@@ -76,19 +76,19 @@ parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
     parse_string(xml_event_reader)?
-        .and_then(|uuid| decode_uuid(&uuid))
+        .and_then(|uuid| decode_uuid(uuid.trim()))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
     parse_string(xml_event_reader)?
-        .and_then(|dt| decode_datetime(&dt))
+        .and_then(|dt| decode_datetime(dt.trim()))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
     Ok(parse_string(xml_event_reader)?
-        .map(|b| b.to_lowercase() == "true")
+        .map(|b| b.trim().to_lowercase() == "true")
         .unwrap_or_default())
 }
 
@@ -115,7 +115,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD.decode(contents.trim()) {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -375,7 +375,7 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0


From 15f0e14c7e1f371e7b4914a1c57d594e70bd6c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:54 +0000
Subject: [PATCH 24/31] fix: refuse to write text that XML cannot represent

Control characters were written as they are, and the resulting archive
could not be opened again.
---
 src/xml/serialize.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index e074884..4f7e4c4 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -2,7 +2,7 @@ use super::decoders::{encode_datetime, encode_uuid};
 use crate::database::{Database, Entry, Field, Group, MemoryProtection, Meta, Times, Value};
 use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
-use std::io::Write;
+use std::io::{self, Write};
 use thiserror::Error;
 use xml::writer::events::XmlEvent;
 use xml::writer::EventWriter as XmlWriter;
@@ -27,11 +27,23 @@ fn write_bool_tag<W: Write>(writer: &mut XmlWriter<W>, name: &str, value: bool)
     Ok(())
 }
 
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
+}
+
 fn write_string_tag<W: Write, S: AsRef<str>>(
     writer: &mut XmlWriter<W>,
     name: &str,
     value: S,
 ) -> Result<()> {
+    if !value.as_ref().chars().all(is_xml_char) {
+        let message = format!("{} contains a character XML cannot represent", name);
+        return Err(xml::writer::Error::from(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            message,
+        ))
+        .into());
+    }
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(value.as_ref()))?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From 4df8de40df694d014a394061bc375552bb7a3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 25/31] fix: flush the destination before reporting a save as
 successful

A buffered writer passed by value only reports a failed write when it is
flushed. Dropping it silently discards the error, so the save reported
success although the archive never reached its destination.
---
 src/binary/kdbx.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index a03dbf7..4857e57 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -168,6 +168,7 @@ impl KdbxState for Unlocked {
         output.write_all(&hmac.into_bytes())?;
         let encrypted_xml = self.encrypt_inner(master_key)?;
         output.write_all(&encrypted_xml)?;
+        output.flush()?;
         Ok(())
     }
 }
@@ -293,6 +294,7 @@ impl KdbxState for Locked {
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
+        output.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From c322dd9b61c428e4d6ee8a24f9c925a08bffffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:22 +0000
Subject: [PATCH 26/31] fix: refuse to write a field without a name, which
 could not be read back

---
 src/xml/serialize.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 4f7e4c4..649a5d1 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -56,6 +56,13 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
     field: &Field,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    if field.key.is_empty() {
+        return Err(xml::writer::Error::from(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "A field has an empty name",
+        ))
+        .into());
+    }
     writer.write(XmlEvent::start_element(wrapper))?;
     write_string_tag(writer, "Key", &field.key)?;
     match &field.value {
-- 
2.43.0


From 66ca8903c5617852866657910ad8795c65c711f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:03 +0000
Subject: [PATCH 27/31] fix: skip unknown XML elements as a whole and keep the
 key stream in step

The children of an unknown element were read as if they belonged to the
enclosing one, and protected values in it (such as KDBX 3 attachments) did
not use up key stream, so every later protected value came out garbled.
---
 src/xml/parse.rs | 95 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 85 insertions(+), 10 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 7b953ba..d38edc7 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -2,12 +2,14 @@ use super::decoders::{decode_datetime, decode_uuid};
 use crate::database::{
     Database, Entry, Field, Group, History, MemoryProtection, Meta, Times, Value,
 };
+use crate::utils::NullStreamCipher;
 use base64::prelude::{Engine, BASE64_STANDARD};
 use chrono::NaiveDateTime;
 use cipher::StreamCipher;
 use std::io::Read;
 use thiserror::Error;
 use uuid::Uuid;
+use xml::attribute::OwnedAttribute;
 use xml::reader::{EventReader, XmlEvent};
 
 #[derive(Debug, Error)]
@@ -92,6 +94,49 @@ fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
         .unwrap_or_default())
 }
 
+fn is_protected(attributes: &[OwnedAttribute]) -> bool {
+    attributes
+        .iter()
+        .any(|attr| attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true")
+}
+
+/// Skip the rest of an element that is not understood, including its children
+///
+/// Protected values in there still use up their part of the key stream.
+fn skip_element<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    attributes: &[OwnedAttribute],
+    stream_cipher: &mut S,
+) -> Result<()> {
+    let mut depth: usize = 1;
+    let mut protected = is_protected(attributes);
+    let mut contents = String::new();
+    while depth > 0 {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { attributes, .. } => {
+                depth += 1;
+                protected = is_protected(&attributes);
+                contents.clear();
+            }
+            XmlEvent::Characters(chardata) => contents.push_str(&chardata),
+            XmlEvent::EndElement { name, .. } => {
+                depth -= 1;
+                if protected {
+                    let mut decoded = BASE64_STANDARD
+                        .decode(contents.trim())
+                        .map_err(|_| Error::DecryptFailed(name.local_name.clone()))?;
+                    stream_cipher
+                        .try_apply_keystream(decoded.as_mut())
+                        .map_err(|_| Error::DecryptFailed(name.local_name.clone()))?;
+                    protected = false;
+                }
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn parse_field<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     tag_name: &str,
@@ -108,9 +153,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement {
                 name, attributes, ..
             } if &name.local_name == "Value" => {
-                let protected = attributes.iter().any(|attr| {
-                    attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true"
-                });
+                let protected = is_protected(&attributes);
                 field.value = if let Some(contents) = parse_string(xml_event_reader)? {
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
@@ -140,6 +183,9 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     Value::Empty
                 }
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if name.local_name == tag_name => break,
             _ => {}
         }
@@ -157,6 +203,9 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
                 history.push(parse_entry(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "History" => break,
             _ => {}
         }
@@ -168,7 +217,9 @@ fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times>
     let mut times = Times::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "LastModificationTime" {
                     times.last_modification_time = parse_datetime(xml_event_reader)?;
                 } else if &name.local_name == "LastAccessTime" {
@@ -183,6 +234,8 @@ fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times>
                     times.expires = parse_bool(xml_event_reader)?;
                 } else if &name.local_name == "UsageCount" {
                     times.usage_count = parse_u32(xml_event_reader)?.unwrap_or_default();
+                } else {
+                    skip_element(xml_event_reader, &attributes, &mut NullStreamCipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Times" => break,
@@ -199,7 +252,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "History" {
                     entry.history = parse_history(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "String" {
@@ -208,6 +263,8 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                     entry.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Times" {
                     entry.times = parse_times(xml_event_reader)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Entry" => break,
@@ -224,7 +281,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "Group" {
                     group.add_group(parse_group(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Entry" {
@@ -235,6 +294,8 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                     group.set_name(parse_string(xml_event_reader)?.unwrap_or_default());
                 } else if &name.local_name == "Times" {
                     group.times = parse_times(xml_event_reader)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Group" => break,
@@ -254,6 +315,9 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
                 groups.push(parse_group(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Root" => break,
             _ => {}
         }
@@ -271,6 +335,9 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Item" => {
                 fields.push(parse_field(xml_event_reader, "Item", stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "CustomData" => break,
             _ => {}
         }
@@ -284,7 +351,9 @@ fn parse_memory_protection<R: Read>(
     let mut protection = MemoryProtection::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "ProtectTitle" => {
                     protection.protect_title = parse_bool(xml_event_reader)?;
                 }
@@ -300,7 +369,7 @@ fn parse_memory_protection<R: Read>(
                 "ProtectNotes" => {
                     protection.protect_notes = parse_bool(xml_event_reader)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, &mut NullStreamCipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "MemoryProtection" => break,
             _ => {}
@@ -316,7 +385,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     let mut meta = Meta::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -332,7 +403,7 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                 "MemoryProtection" => {
                     meta.memory_protection = parse_memory_protection(xml_event_reader)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "Meta" => break,
             _ => {}
@@ -354,6 +425,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
+            XmlEvent::StartElement { name, .. } if &name.local_name == "KeePassFile" => {}
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
             _ => {}
         }
-- 
2.43.0


From 17a313b23c088997f1aeae1be7729cf779f8b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:24 +0000
Subject: [PATCH 28/31] fix: keep the padding of OTP secrets when reading them
 back

---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 0620443..091832e 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -892,7 +892,7 @@ impl<'a> Otp<'a> {
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
+            let mut param_parts = param.splitn(2, '=');
             let pkey = param_parts.next()?;
             if pkey == key {
                 return param_parts.next();
-- 
2.43.0


From 48b7325c865e52658d66f049a33ff9bc57e02bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:36 +0000
Subject: [PATCH 29/31] fix: verify the rest of a compressed KDBX 4 stream
 after the gzip data ends

The gzip decoder stops reading at its trailer, so the HMAC blocks behind
it, including the end marker, were never checked and could be altered or
cut off unnoticed.
---
 src/stream/pipeline.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index cbcea31..5526fb2 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -103,6 +103,23 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     Ok(decompressed)
 }
 
+/// Decompresses a stream, and reads it to its end once the compressed data is over
+///
+/// Whether the rest of the stream is complete and authentic is only found out by reading it.
+struct GzipReader<R: io::Read> {
+    decoder: libflate::gzip::Decoder<R>,
+}
+
+impl<R: io::Read> io::Read for GzipReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let count = self.decoder.read(buf)?;
+        if count == 0 && !buf.is_empty() {
+            io::copy(self.decoder.as_inner_mut(), &mut io::sink())?;
+        }
+        Ok(count)
+    }
+}
+
 pub(crate) fn kdbx4_read_stream<'a, R: io::Read + 'a>(
     inner: R,
     hmac_key: crypto::HmacKey,
@@ -116,7 +133,9 @@ pub(crate) fn kdbx4_read_stream<'a, R: io::Read + 'a>(
     let decrypted = decryption_stream(verified, cipher_key, cipher, iv)?;
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(decrypted),
-        binary::CompressionType::Gzip => Box::new(libflate::gzip::Decoder::new(decrypted)?),
+        binary::CompressionType::Gzip => Box::new(GzipReader {
+            decoder: libflate::gzip::Decoder::new(decrypted)?,
+        }),
         binary::CompressionType::Unknown(_) => {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
-- 
2.43.0


From 2ed8ee250e216f152b65de7853fd28ddb3ad92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:36 +0000
Subject: [PATCH 30/31] fix: stop at the end of an XML document without a
 KeePassFile element

The parser kept asking for further events and never returned.
---
 src/xml/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index d38edc7..b928fca 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -430,6 +430,7 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 skip_element(xml_event_reader, &attributes, stream_cipher)?;
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
+            XmlEvent::EndDocument => break,
             _ => {}
         }
     }
-- 
2.43.0


From 6a807ba3ebaaf7c8faa41c1bdbef5dd15a9756c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:27 +0000
Subject: [PATCH 31/31] Expose the content streams to the verification harness
 under cfg(kdbx_verif)

---
 src/lib.rs   |  3 +++
 src/verif.rs | 76 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 79 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 1c3c57c..e9e87f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -101,6 +101,9 @@ pub mod database;
 pub mod errors;
 mod stream;
 pub mod utils;
+#[cfg(kdbx_verif)]
+#[doc(hidden)]
+pub mod verif;
 pub mod xml;
 
 pub use crate::database::Database;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..29a89b9
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,76 @@
+//! Access to the private content streams for the verification harness.
+//!
+//! Only compiled with `--cfg kdbx_verif`.
+
+use crate::{binary, stream, CompositeKey};
+use std::io;
+
+fn master_key(
+    key: &CompositeKey,
+    header: &binary::KdbxHeader,
+) -> io::Result<crate::crypto::MasterKey> {
+    key.composed()
+        .master_key(&header.kdf_params)
+        .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e.to_string()))
+}
+
+/// Stream giving the content of the encrypted part of a KDBX 4 archive
+pub fn kdbx4_reader<'a, R: io::Read + 'a>(
+    inner: R,
+    key: &CompositeKey,
+    header: &binary::KdbxHeader,
+) -> io::Result<Box<dyn io::Read + 'a>> {
+    let master_key = master_key(key, header)?;
+    stream::kdbx4_read_stream(
+        inner,
+        master_key.hmac_key(&header.master_seed),
+        master_key.cipher_key(&header.master_seed),
+        header.cipher,
+        &header.encryption_iv,
+        header.compression_type,
+    )
+}
+
+/// Stream giving the content of the encrypted part of a KDBX 3 archive
+pub fn kdbx3_reader<'a, R: io::Read + 'a>(
+    inner: R,
+    key: &CompositeKey,
+    header: &binary::KdbxHeader,
+) -> io::Result<Box<dyn io::Read + 'a>> {
+    let master_key = master_key(key, header)?;
+    stream::kdbx3_read_stream(
+        inner,
+        master_key.cipher_key(&header.master_seed),
+        header.cipher,
+        &header.encryption_iv,
+        header.compression_type,
+        header.stream_start_bytes.as_deref().unwrap_or_default(),
+    )
+}
+
+/// Send the pieces through the stream writing the encrypted part of a KDBX 4
+/// archive, an empty piece standing for a flush
+pub fn kdbx4_write<W: io::Write>(
+    inner: W,
+    key: &CompositeKey,
+    header: &binary::KdbxHeader,
+    pieces: &[&[u8]],
+) -> io::Result<W> {
+    let master_key = master_key(key, header)?;
+    let mut writer = stream::kdbx4_write_stream(
+        inner,
+        master_key.hmac_key(&header.master_seed),
+        master_key.cipher_key(&header.master_seed),
+        header.cipher,
+        &header.encryption_iv,
+        header.compression_type,
+    )?;
+    for piece in pieces {
+        if piece.is_empty() {
+            io::Write::flush(&mut writer)?;
+        } else {
+            io::Write::write_all(&mut writer, piece)?;
+        }
+    }
+    writer.finish()
+}
-- 
2.43.0

