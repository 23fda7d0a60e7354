From b136a592d473fb1d8ef8f24e6c52d296dc324a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 1/9] fix: decrypt_to_vec rejects ciphertexts shorter than a
 tag

The plaintext length was computed before the size was validated, so an
input of fewer than 16 bytes underflowed (a panic, or PacketTooBig with
overflow checks off) instead of returning CiphertextTooSmall.
---
 protocol/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..5048bf2 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -572,6 +572,7 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From bea574172e8430bb52e2d8e256e383a25e876829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 2/9] fix: classify packets by the ignore bit of the header
 only

BIP-324 defines one header flag, the ignore bit, and requires receivers
to ignore the other bits. A decoy with any other bit set was reported as
a genuine packet, during the handshake even as the version packet.
---
 protocol/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 5048bf2..f48e55f 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -396,7 +396,9 @@ pub enum PacketType {
 impl PacketType {
     /// Check if header byte has the decoy flag flipped.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        // Only the ignore bit is meaningful, BIP-324 requires receivers
+        // to ignore the remaining header bits.
+        if header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From 61b2171a29731602c004f981eb9ec2c1c861a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 3/9] fix: retry interrupted reads while searching for the
 garbage terminator

All other reads go through read_exact which retries, but a signal during
the garbage search aborted the handshake.
---
 protocol/src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..51ffb87 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -379,6 +379,8 @@ where
                     Ok(n) => {
                         garbage_buffer.extend_from_slice(&temp[..n]);
                     }
+                    // Retry just like read_exact.
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                     Err(e) => return Err(ProtocolError::from(e)),
                 }
             }
-- 
2.43.0


From 396a84ee9959f1e22646c1a52f98644030ffdb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 4/9] fix: count length chunks with 64 bits

The length cipher counter wrapped (or panicked with overflow checks on)
after 2^32 packets. The wrap restarts the nonce and shifts the re-keying
schedule away from BIP-324, which encodes a 64-bit rekey counter.
---
 protocol/src/fschacha20poly1305.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..a87ed8f 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,14 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        let counter_div = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_div);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From 8ceedd8b1c7bac4c141cbdf1a5d12ec105a166bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 5/9] fix: default traffic stats start their activity clock at
 creation

The derived default left the last activity at the unix epoch, so the time
since the last activity was decades instead of the time since creation.
---
 traffic/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index d7be82a..6f4e7be 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -241,7 +241,7 @@ pub trait TrafficStats: Send + Sync {
 ///
 /// All methods on this struct are safe to call from multiple threads concurrently.
 /// The statistics use atomic operations to ensure consistency without locks.
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct AtomicTrafficStats {
     /// Total bytes read from the connection.
     bytes_read: AtomicU64,
@@ -255,6 +255,12 @@ pub struct AtomicTrafficStats {
     last_activity_ms: AtomicU64,
 }
 
+impl Default for AtomicTrafficStats {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl AtomicTrafficStats {
     /// Create a new traffic statistics tracker with all counters at zero.
     pub fn new() -> Self {
-- 
2.43.0


From 0f5289ca5af6b360fb02efefee4e464994d9fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 6/9] fix: stop the async writer task once the protocol is
 dropped

A closed channel only disabled its select branch, and the decoy interval
kept the else branch unreachable. The task, the writer, and the decoys
outlived the protocol forever.
---
 traffic/src/futures.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..a1ae30b 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,12 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                // Exit if all write_tx senders dropped, don't send decoys forever.
+                let cmd = match cmd {
+                    Some(cmd) => cmd,
+                    None => break,
+                };
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +248,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0


From 855d26e1653b2f22c79a4a92c38ba4d6893e53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 7/9] fix: refuse to encrypt contents which overflow the length
 bytes

Contents of 2^24 bytes or more were sent with a truncated length, which
the remote reads as a shorter packet and everything after it as garbage.
---
 protocol/src/io.rs  | 13 ++++++++++---
 protocol/src/lib.rs | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index 51ffb87..104a643 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -566,9 +566,16 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
+
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index f48e55f..a8c4595 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -163,6 +163,8 @@ const NUM_GARBAGE_TERMINTOR_BYTES: usize = 16;
 const NUM_TAG_BYTES: usize = 16;
 // Number of bytes per packet for static layout, everything not including contents.
 const NUM_PACKET_OVERHEAD_BYTES: usize = NUM_LENGTH_BYTES + NUM_HEADER_BYTES + NUM_TAG_BYTES;
+// Maximum number of contents bytes which the length bytes of a packet can describe.
+const MAX_CONTENTS_BYTES: usize = (1 << (8 * NUM_LENGTH_BYTES)) - 1;
 // Maximum packet size for automatic allocation.
 // Bitcoin Core's MAX_PROTOCOL_MESSAGE_LENGTH is 4,000,000 bytes (~4 MiB).
 // 14 extra bytes are for the BIP-324 header byte and 13 serialization header bytes (message type).
@@ -616,6 +618,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext length does not fit in the 3 length bytes of a packet.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -623,6 +626,11 @@ impl OutboundCipher {
         packet_type: PacketType,
         aad: Option<&[u8]>,
     ) -> Result<(), Error> {
+        // The length of the contents must be representable on the wire.
+        if plaintext.len() > MAX_CONTENTS_BYTES {
+            return Err(Error::PacketTooBig);
+        }
+
         // Validate buffer capacity.
         if ciphertext_buffer.len() < Self::encryption_buffer_len(plaintext.len()) {
             return Err(Error::BufferTooSmall {
@@ -673,6 +681,11 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// If the plaintext length does not fit in the 3 length bytes of a packet. Use
+    /// [`Self::encrypt`] to handle the error.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -683,9 +696,9 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // The exact required size is allocated, so only an oversized plaintext can fail.
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
-            .expect("encrypt should never fail with correctly sized buffer");
+            .expect("plaintext length should fit in the length bytes");
 
         ciphertext_buffer
     }
-- 
2.43.0


From 03e9889f96e01166d41313df79c156954f1dcf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 8/9] fix: fail writes after a background decoy failed to send

A decoy which fails part way leaves a partial packet on the wire and has
used up its cipher state. Later writes kept reporting success although
the remote could not decrypt anything anymore.
---
 traffic/src/futures.rs |  7 +++++--
 traffic/src/io.rs      | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index a1ae30b..68cf1a7 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -244,8 +244,11 @@ async fn writer_task<W, R>(
             // Concurrently send decoys.
             _ = decoy_interval.tick() => {
                 if let Some(decoy) = shaper.decoy(&stats) {
-                    // Ignore write errors for decoys - they're best-effort.
-                    let _ = writer.write(&decoy).await;
+                    // The remote is unable to decrypt anything after a partial packet,
+                    // so exit which fails all following writes.
+                    if writer.write(&decoy).await.is_err() {
+                        break;
+                    }
                 }
             }
         }
diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 974cb48..9a139c5 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -19,6 +19,8 @@ use crate::{
 struct WriterState<W, R = rand::rngs::StdRng> {
     writer: ProtocolWriter<W>,
     shaper: TrafficShaper<R>,
+    /// A background decoy failed, the remote might have only part of it.
+    decoy_failed: bool,
 }
 
 /// Traffic-shaped protocol reader half.
@@ -124,6 +126,7 @@ where
         let writer_state = Arc::new(Mutex::new(WriterState {
             writer: protocol_writer,
             shaper,
+            decoy_failed: false,
         }));
 
         // Create shutdown flag and spawn decoy thread.
@@ -184,6 +187,14 @@ where
     /// Write a payload with traffic shaping.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
         let mut state = self.writer_state.lock().unwrap();
+        // The remote is unable to decrypt anything after a partial packet.
+        if state.decoy_failed {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::BrokenPipe,
+                "Writing a decoy packet failed",
+            )
+            .into());
+        }
         if let Some(decoy) = state.shaper.pad(payload, &self.stats) {
             state.writer.write(&decoy)?;
         }
@@ -227,7 +238,10 @@ fn decoy_thread<W, R>(
         };
 
         if let Some(decoy) = state.shaper.decoy(&stats) {
-            let _ = state.writer.write(&decoy);
+            if state.writer.write(&decoy).is_err() {
+                state.decoy_failed = true;
+                return;
+            }
         }
     }
 }
-- 
2.43.0


From 8a4a7af4baa1357a57b44cd8dff115d9eb3685fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 9/9] fix: fail later writes after an I/O failure in a
 cancelled shaped write

An async shaped write whose future was dropped had nobody to report a
failed transport to, so the writer task went on and later writes were
reported as successful although the remote is unable to decrypt
anything after the lost bytes.
---
 traffic/src/futures.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index 68cf1a7..46656a7 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -237,8 +237,17 @@ async fn writer_task<W, R>(
                     }
                 }
 
+                // The remote is unable to decrypt anything after a partial packet.
+                let failed = matches!(result, Err(ProtocolError::Io(..)));
+
                 // Send result back (ignore if receiver dropped).
                 let _ = cmd.result_tx.send(result);
+
+                // The receiver might never see the failure, so exit which fails
+                // all following writes.
+                if failed {
+                    break;
+                }
             }
 
             // Concurrently send decoys.
-- 
2.43.0

