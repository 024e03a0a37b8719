From 83641e3ed289f1decde81790ad921caa65f90da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:31 +0000
Subject: [PATCH 01/11] fix: marshaling a TPM2B into too small a buffer returns
 an error instead of panicking

---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..938048a 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > (core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len())) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From 66555763f57850ff471ddbe329254bfe12f73fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:31 +0000
Subject: [PATCH 02/11] fix: marshaling a list whose count exceeds its array
 returns an error instead of panicking

---
 marshalable-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 938048a..0a2cb96 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -412,6 +412,9 @@ fn get_named_field_marshal<'a>(
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > self.#name.len() {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From 23de1cb4b776ace2423f20072d866afec5e56600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 03/11] fix: reject responses whose size is below the header or
 above the received bytes

---
 crates/tpm2-client/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..54835f0 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -173,14 +173,18 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let response = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(response)?;
     let resp_size = resp_header.size as usize;
-    if resp_size > resp_buffer.len() {
+    if resp_size > RESP_BUFFER_SIZE {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
+    // The size must cover the header and must not exceed what was actually received.
+    let Some(resp_body) = response.get(read..resp_size) else {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    };
+    let mut unmarsh = UnmarshalBuf::new(resp_body);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From 3d8bce8529a99c5ea2e8bc90d148897aad29c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 04/11] fix: write_command_sessions returns an error when the
 size field does not fit

---
 crates/tpm2-client/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 54835f0..5039f8a 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -83,6 +83,8 @@ pub fn write_command_sessions<
         return Ok(0);
     }
     let mut auth_offset = size_of::<u32>();
+    // Reserve the size field, which is only filled in at the end.
+    0u32.try_marshal(buffer)?;
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From 4104cea7592df4f08add1b57c673c84e686498c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 05/11] fix: decode handle and session positions of format-one
 response codes

---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..7046c38 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,13 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // For handles and sessions only three bits hold the number, bit 0x800 tells them apart.
+        let number = if val & ErrorType::PARAMETER_MASK != 0 {
+            val & 0xF00
+        } else {
+            val & 0x700
+        };
+        match number {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From cbc188cacae001cb23f923dda9edf3143d44fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 06/11] fix: TPM_RC_SEQUENCE is 0x103

---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 7046c38..9e374a8 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From c8cfb68e602304cba2a36ac763834ff10d24ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 07/11] fix: error responses carry a complete response header

---
 crates/tpm2-impl/src/tpmctx.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..4b16c82 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -3,7 +3,7 @@ use crate::buffers::{InOutBuffer, SeparateBuffers};
 use crate::handler::CommandHandler;
 use crate::platform::{TpmBuffers, TpmContextDeps, TpmReadBuffer, TpmWriteBuffer};
 use crate::req_resp::RequestResponseCursor;
-use tpm2_rs_base::constants::TpmCc;
+use tpm2_rs_base::constants::{TpmCc, TpmSt};
 use tpm2_rs_base::errors::TpmRcError;
 
 /// The object that processes incoming TPM requests and produces the corresponding TPM response.
@@ -48,11 +48,15 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        const HEADER_SIZE: usize = 10;
+        let mut header = [0u8; HEADER_SIZE];
+        header[0..2].copy_from_slice(&TpmSt::NoSessions.0.to_be_bytes());
+        header[2..6].copy_from_slice(&(HEADER_SIZE as u32).to_be_bytes());
+        header[6..10].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        HEADER_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
-- 
2.43.0


From 0211fbb9166cad7d19600395c9dd5ba3ac56e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 08/11] fix: a DRBG failure is reported as TPM_RC_FAILURE
 instead of panicking

---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..8156a8f 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer);
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO: goto failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From 87a995f1aadc986bdd03e1e2cd3a0bd7f83fb3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 09/11] fix: buffer accesses whose offset plus length overflows
 are out of bounds, not a panic

---
 crates/tpm2-impl/src/buffers/inout.rs   |  3 ++-
 crates/tpm2-impl/src/platform/buffer.rs | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-impl/src/buffers/inout.rs b/crates/tpm2-impl/src/buffers/inout.rs
index 11e1123..b5815e4 100644
--- a/crates/tpm2-impl/src/buffers/inout.rs
+++ b/crates/tpm2-impl/src/buffers/inout.rs
@@ -33,7 +33,8 @@ impl<W: TpmWriteBuffer + ?Sized> TpmReadBuffer for InOutBuffer<'_, W> {
 
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
         // Limit the read view to only the request portion of the in-place buffer
-        if self.len < offset + out.len() {
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        if self.len < end {
             return Err(ReadOutOfBounds);
         }
         self.buffer.read_into(offset, out)
diff --git a/crates/tpm2-impl/src/platform/buffer.rs b/crates/tpm2-impl/src/platform/buffer.rs
index 5f57ed7..d5f5e43 100644
--- a/crates/tpm2-impl/src/platform/buffer.rs
+++ b/crates/tpm2-impl/src/platform/buffer.rs
@@ -63,7 +63,8 @@ impl TpmReadBuffer for [u8] {
     }
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
         let read_from = self
-            .get(offset..offset + out.len())
+            .get(offset..)
+            .and_then(|tail| tail.get(..out.len()))
             .ok_or(ReadOutOfBounds)?;
         out.copy_from_slice(read_from);
         Ok(())
@@ -73,7 +74,8 @@ impl TpmReadBuffer for [u8] {
 impl TpmWriteBuffer for [u8] {
     fn write(&mut self, write_offset: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
         let write_to = self
-            .get_mut(write_offset..write_offset + data.len())
+            .get_mut(write_offset..)
+            .and_then(|tail| tail.get_mut(..data.len()))
             .ok_or(WriteOutOfBounds)?;
         write_to.copy_from_slice(data);
 
@@ -85,7 +87,10 @@ impl TpmWriteBuffer for [u8] {
         size: usize,
         callback: impl FnOnce(&mut [u8]),
     ) -> Result<(), WriteOutOfBounds> {
-        let Some(buffer) = self.get_mut(write_offset..write_offset + size) else {
+        let Some(buffer) = self
+            .get_mut(write_offset..)
+            .and_then(|tail| tail.get_mut(..size))
+        else {
             return Err(WriteOutOfBounds);
         };
         callback(buffer);
-- 
2.43.0


From ecaf2e671f4543a33dfecbff9154c00e3ca7c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 10/11] fix: a response larger than the buffer is drained,
 keeping the connection in sync

---
 crates/tpm2-client/src/connection/tcp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7a7f9b7..ff8621d 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -418,6 +418,10 @@ impl Connection for TcpConnection {
         let mut resp_hdr: SendCommandResponseHeader = SendCommandResponseHeader::default();
         self.tpm_tcp.read_exact(resp_hdr.as_mut_bytes())?;
         if resp_hdr.length.get() as usize > response.len() {
+            // Consume the whole reply, so that the connection stays in sync.
+            let mut reply = (&mut self.tpm_tcp).take(resp_hdr.length.get().into());
+            std::io::copy(&mut reply, &mut std::io::sink())?;
+            Self::check_response_end(&mut self.tpm_tcp)?;
             return Err(Error::new(
                 ErrorKind::InvalidInput,
                 "response buffer too small",
-- 
2.43.0


From f4c52b85e29acb3e275bd98a25b63e8e2eb75190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:34 +0000
Subject: [PATCH 11/11] fix: a simulator that cannot be connected to is not
 left running

---
 crates/tpm2-client/src/connection/tcp.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index ff8621d..b7edd62 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -645,7 +645,7 @@ impl TcpSimulator {
             command.args(args);
         }
 
-        let child = command
+        let mut child = command
             // TODO: Capture stdout/stderr to display when requested.
             .stdout(Stdio::null())
             .stderr(Stdio::null())
@@ -664,13 +664,23 @@ impl TcpSimulator {
         // The TCG TPM simulator writes the ports it uses to two files:
         //   - TPM port: "command.port"
         //   - Platform port: "platform.port"
-        let tpm_port = Self::read_port_from_file_with_retries(&cwd.as_ref().join("command.port"))?;
-        let plat_port =
-            Self::read_port_from_file_with_retries(&cwd.as_ref().join("platform.port"))?;
+        match Self::connect_to_announced_ports(cwd.as_ref(), ip) {
+            Ok(conn) => Ok(TcpSimulator { child, conn }),
+            Err(err) => {
+                // Do not leave the simulator running when it cannot be used.
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(err)
+            }
+        }
+    }
 
-        let conn = TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))?;
+    /// Connects to the ports which the simulator announces in its working directory.
+    fn connect_to_announced_ports(cwd: &Path, ip: &str) -> Result<TcpConnection> {
+        let tpm_port = Self::read_port_from_file_with_retries(&cwd.join("command.port"))?;
+        let plat_port = Self::read_port_from_file_with_retries(&cwd.join("platform.port"))?;
 
-        Ok(TcpSimulator { child, conn })
+        TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))
     }
 
     /// Reads a port from a file with retires.
-- 
2.43.0

