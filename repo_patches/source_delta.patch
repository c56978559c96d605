From 6cd4e38a0af4daaaa6f740702615541346aabab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 01/51] fix: do not accumulate abandoned lock listeners

Every async_lock() registers a listener, but listeners were only drained when a
lock was acquired or released, so the list grew by one entry for each
uncontended access.
---
 device/src/lock.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 6595319..66f17fb 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -78,6 +78,8 @@ impl SharedLock {
     }
 
     fn listen(&mut self) -> Receiver<()> {
+        // Forget listeners that are no longer waiting
+        self.event.retain(|sender| !sender.is_canceled());
         let (sender, receiver) = channel();
         self.event.push(sender);
         receiver
-- 
2.43.0


From 71614c7d4f3c90fa7cef7faa67d3f620b9273b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 02/51] fix: do not hand out the device while another handle
 holds the lock

When the device became free and a lock was granted at the same time, the wait
for the device could win and return a guard to a handle that is locked out.
The same window exists between the check and the attempt in try_lock().
---
 device/src/lock.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 66f17fb..af5e3e4 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -348,7 +348,10 @@ impl<DEV> LockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to another handle since it was checked
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Lock device if allowed
@@ -368,6 +371,10 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // A lock may have been granted to another handle while waiting
+                            if self.can_lock().is_err() {
+                                continue
+                            }
                             log::trace!(id=self.id; "Locked!");
                             return Ok(guard)
                         },
@@ -449,7 +456,10 @@ impl<DEV> RemoteLockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to another handle since it was checked
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Wait for device becoming onlocked (or handle acquiring a lock) and available
@@ -472,6 +482,10 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // A lock may have been granted to another handle while waiting
+                            if self.can_lock().is_err() {
+                                continue
+                            }
                             log::trace!("Locked!");
                             return Ok(guard)
                         },
-- 
2.43.0


From 899140e8de5882a59c4554b23285e742441ace6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 03/51] fix: raw: do not execute an unterminated line at the
 end of the stream

---
 raw/src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index da13cc6..6ef1a1c 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -136,6 +136,12 @@ impl Server {
                 break;
             }
 
+            // The stream ended in the middle of a line, a truncated command must not be executed
+            if cmd.last() != Some(&self.0.read_termination) {
+                log::info!("{:?} disconnected with an incomplete line", peer);
+                break;
+            }
+
             log::trace!("{:?} read {} bytes", peer, cmd.len());
 
             let resp = {
-- 
2.43.0


From 18ee63f6f7b9c81c3ca4b1b6e6786c89f56e8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 04/51] fix: telnet: end the session when the client
 disconnects

---
 telnet/src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 905bf82..7345a44 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -92,6 +92,10 @@ impl Server {
 
             // Read a line from stream.
             let n = stream.read(&mut buf).await?;
+            if n == 0 {
+                // Disconnected
+                break;
+            }
 
             let events = instance.receive(&buf[..n]);
             for event in events {
@@ -142,6 +146,8 @@ impl Server {
                 }
             }
         }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 6d0f51021b27c86c18912ed41c78dd5b1dc037a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 05/51] fix: telnet: keep the last character of a line that
 ends with a bare LF

---
 telnet/src/server/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 7345a44..1ffb27b 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -119,8 +119,10 @@ impl Server {
                             }
 
                             if b == b'\n' {
-                                // Remove \r
-                                cmd.pop();
+                                // Remove \r, if any
+                                if cmd.last() == Some(&b'\r') {
+                                    cmd.pop();
+                                }
                                 // Lock device and execute
                                 let resp = {
                                     let mut device = handle.async_lock().await.unwrap();
-- 
2.43.0


From 4fa9c60cf11efd4ec0efe224b25fd47965a735ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 06/51] fix: telnet: parse commands and escaped data bytes
 independent of segmentation

---
 telnet/src/server/mod.rs | 78 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 76 insertions(+), 2 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 1ffb27b..f6b97ef 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -11,8 +11,12 @@ use async_std::net::{TcpListener, ToSocketAddrs};
 
 use async_listen::ListenExt;
 
+use libtelnet_rs::bytes::Bytes;
 use libtelnet_rs::events::TelnetEvents;
-use libtelnet_rs::{telnet::op_option as options, Parser};
+use libtelnet_rs::{
+    telnet::{op_command as commands, op_option as options},
+    Parser,
+};
 
 use lxi_device::lock::SpinMutex;
 use lxi_device::{
@@ -22,6 +26,75 @@ use lxi_device::{
 
 pub struct Server(ServerConfig);
 
+/// Splits the received bytes into telnet elements, however they are segmented.
+///
+/// [Parser::receive] only recognizes sequences which are received whole, drops data following an
+/// escaped IAC and takes commands such as EC or EL for a negotiation.
+#[derive(Default)]
+struct Decoder {
+    state: DecoderState,
+}
+
+#[derive(Clone, Copy)]
+enum DecoderState {
+    Data,
+    Iac,
+    Negotiation(u8),
+    Subnegotiation,
+    SubnegotiationIac,
+}
+
+impl Default for DecoderState {
+    fn default() -> Self {
+        Self::Data
+    }
+}
+
+impl Decoder {
+    fn receive(&mut self, parser: &mut Parser, bytes: &[u8]) -> Vec<TelnetEvents> {
+        let mut events = Vec::new();
+        let mut data = Vec::new();
+        for &b in bytes {
+            self.state = match (self.state, b) {
+                (DecoderState::Data, commands::IAC) => DecoderState::Iac,
+                (DecoderState::Data, _) | (DecoderState::Iac, commands::IAC) => {
+                    data.push(b);
+                    DecoderState::Data
+                }
+                (DecoderState::Iac, commands::WILL..=commands::DONT) => {
+                    DecoderState::Negotiation(b)
+                }
+                (DecoderState::Iac, commands::SB) => DecoderState::Subnegotiation,
+                (DecoderState::Iac, _) => {
+                    Self::flush(&mut events, &mut data);
+                    events.push(TelnetEvents::build_iac(b));
+                    DecoderState::Data
+                }
+                (DecoderState::Negotiation(command), _) => {
+                    Self::flush(&mut events, &mut data);
+                    events.extend(parser.receive(&[commands::IAC, command, b]));
+                    DecoderState::Data
+                }
+                // No option with subnegotiations is supported
+                (DecoderState::Subnegotiation, commands::IAC) => DecoderState::SubnegotiationIac,
+                (DecoderState::SubnegotiationIac, commands::SE) => DecoderState::Data,
+                (DecoderState::Subnegotiation, _) | (DecoderState::SubnegotiationIac, _) => {
+                    DecoderState::Subnegotiation
+                }
+            };
+        }
+        Self::flush(&mut events, &mut data);
+        events
+    }
+
+    fn flush(events: &mut Vec<TelnetEvents>, data: &mut Vec<u8>) {
+        if !data.is_empty() {
+            let data = Bytes::from(std::mem::take(data));
+            events.push(TelnetEvents::build_receive(data));
+        }
+    }
+}
+
 impl Server {
     /// Accept client connections
     pub async fn accept<DEV>(
@@ -73,6 +146,7 @@ impl Server {
     {
         let handle = LockHandle::new(shared_lock, device);
 
+        let mut decoder = Decoder::default();
         let mut instance = Parser::new();
         instance.options.support_local(options::ECHO);
         instance.options.support_local(options::SGA);
@@ -97,7 +171,7 @@ impl Server {
                 break;
             }
 
-            let events = instance.receive(&buf[..n]);
+            let events = decoder.receive(&mut instance, &buf[..n]);
             for event in events {
                 match event {
                     TelnetEvents::IAC(iac) => match iac.command {
-- 
2.43.0


From 4f62e14623f2aa9d0e6e034a52ae1a9c909b661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 07/51] fix: telnet: escape echoed IAC bytes and echo only what
 follows the request

---
 telnet/src/server/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index f6b97ef..0a58f90 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -152,6 +152,7 @@ impl Server {
         instance.options.support_local(options::SGA);
         instance.options.support_local(options::BINARY);
 
+        let mut echo = false;
         let mut buf = [0u8; 128];
         let mut cmd = Vec::with_capacity(self.0.read_buffer);
 
@@ -183,13 +184,18 @@ impl Server {
                         },
                         _cmd => {}
                     },
-                    TelnetEvents::Negotiation(_neg) => {}
+                    TelnetEvents::Negotiation(neg) => match (neg.command, neg.option) {
+                        // Applies to data received from here on
+                        (commands::DO, options::ECHO) => echo = true,
+                        (commands::DONT, options::ECHO) => echo = false,
+                        _ => {}
+                    },
                     TelnetEvents::Subnegotiation(_sub) => {}
                     TelnetEvents::DataReceive(data) => {
                         for b in data {
                             // Echo back if enabled
-                            if instance.options.get_option(options::ECHO).local_state {
-                                stream.write_all(&[b]).await?;
+                            if echo {
+                                stream.write_all(&Parser::escape_iac(vec![b])).await?;
                             }
 
                             if b == b'\n' {
-- 
2.43.0


From 9e605ba54142e180eaefd6622e7c2b3dde5ca557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 08/51] fix: telnet: send the go ahead command instead of an
 option code

---
 telnet/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 0a58f90..f1d22f6 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -162,7 +162,7 @@ impl Server {
             stream.write_all(&prompt).await?;
             // Send a go ahead
             if !instance.options.get_option(options::SGA).local_state {
-                stream.write_all(b"\xff\x03").await?;
+                stream.write_all(b"\xff\xf9").await?;
             }
 
             // Read a line from stream.
-- 
2.43.0


From 2182d2b2335d908d63e073d8c65f9df6339aca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 09/51] fix: hislip: skip the payload of a message which is too
 large

---
 hislip/src/common/messages.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 960c427..0ab70de 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -8,6 +8,7 @@ use byteorder::{BigEndian, ByteOrder, NetworkEndian};
 use lxi_device::lock::SharedLockError;
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
+use futures::io::{copy, sink};
 use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
 
 use super::Protocol;
@@ -64,6 +65,11 @@ impl Message {
         let message_parameter = BigEndian::read_u32(&buf[4..8]);
 
         if len > maxlen {
+            // Skip payload to find the next message
+            let skipped = copy(reader.take(len), &mut sink()).await?;
+            if skipped < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             Ok(Err(Error::NonFatal(
                 NonFatalErrorCode::MessageTooLarge,
                 "Message payload too large".to_string(),
-- 
2.43.0


From 750af483b35a8573f39f65669d5695d536569a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 10/51] fix: hislip: do not accept a message cut short by the
 end of the stream

---
 hislip/src/common/messages.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 0ab70de..07cb18f 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -75,7 +75,7 @@ impl Message {
                 "Message payload too large".to_string(),
             )))
         } else {
-            let mut payload = Vec::with_capacity(len as usize);
+            let mut payload = Vec::new();
             if payload.try_reserve_exact(len as usize).is_err() {
                 return Ok(Err(Error::Fatal(
                     FatalErrorCode::UnidentifiedError,
@@ -83,6 +83,9 @@ impl Message {
                 )));
             }
             reader.take(len).read_to_end(&mut payload).await?;
+            if (payload.len() as u64) < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                 Error::NonFatal(
                     NonFatalErrorCode::UnrecognizedMessageType,
-- 
2.43.0


From 82b1e8a7f36d1f097f60e694bd0d1f74f85b47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 11/51] fix: hislip: keep the code of vendor specific messages

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 07cb18f..267b1f5 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -262,7 +262,7 @@ impl MessageType {
             MessageType::AuthenticationStart => 36,
             MessageType::AuthenticationExchange => 37,
             MessageType::AuthenticationResult => 38,
-            MessageType::VendorSpecific(x) => x & 0x7F,
+            MessageType::VendorSpecific(x) => x | 0x80,
         }
     }
 
-- 
2.43.0


From 3b2d3c96d5d7adf8d431e53721e9ec91225568c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 12/51] fix: hislip: check the payload of AsyncEndTLS

---
 hislip/src/server/session/asynchronous.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 3b23d4e..6789f4d 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -425,6 +425,12 @@ where
                             payload,
                         } if protocol >= PROTOCOL_2_0 => {
                             // Only supported >= 2.0
+                            if payload.len() != 4 {
+                                send_fatal!(peer=peer.to_string(), session_id=self.id;
+                                    &mut wr, FatalErrorCode::PoorlyFormattedMessageHeader,
+                                    "Expected 4 bytes in AsyncEndTLS payload"
+                                )
+                            }
 
                             let _control = RmtDeliveredControl(control_code);
                             let message_id_sent = message_parameter;
-- 
2.43.0


From 1c518b0b8979d1434e00d13681c995b0cf13aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 13/51] fix: hislip: refuse a second asynchronous channel of a
 session

---
 hislip/src/server/session/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index afba926..197dd7a 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -65,7 +65,7 @@ impl SharedSession {
         // !matches!(self.state, SessionState::Handshake) // Just looks weird
         match self.state {
             SessionState::Handshake => false,
-            _ => false,
+            _ => true,
         }
     }
 
-- 
2.43.0


From 8a6ab03032ad2fb81d74f91d0c9f66f3339f76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 14/51] fix: hislip: do not panic if the client announces a
 maximum message size of zero

---
 hislip/src/server/session/synchronous.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index a368cae..6925689 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -1,3 +1,4 @@
+use std::cmp::max;
 use std::io;
 use std::str::from_utf8;
 
@@ -244,7 +245,7 @@ where
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
-                                                .chunks(shared.max_message_size as usize)
+                                                .chunks(max(shared.max_message_size as usize, 1))
                                                 .peekable();
                                             drop(shared);
 
-- 
2.43.0


From 0b754133e542cd29b80a9af6da0ad8cd2d3ae7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 15/51] fix: hislip: forget the command after a short-circuited
 identification

---
 hislip/src/server/session/synchronous.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 6925689..6e34f1a 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -237,10 +237,9 @@ where
                                         {
                                             self.config.short_idn.clone()
                                         } else {
-                                            let data = dev.execute(&buffer);
-                                            buffer.clear();
-                                            data
+                                            dev.execute(&buffer)
                                         };
+                                        buffer.clear();
 
                                         // Send back response
                                         if let Some(data) = data {
-- 
2.43.0


From ec68c5196f08c3d4c83ba9a668ec0f39554d42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 16/51] fix: hislip: do not end the session on a status change
 while service is already requested

---
 hislip/src/server/session/asynchronous.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 6789f4d..29a636d 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -90,7 +90,9 @@ where
                                 .write_to(&mut wr)
                                 .await?
                         }
-                        _ => {
+                        // Already requested service
+                        Some(_) => {}
+                        None => {
                             send_fatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut wr, FatalErrorCode::UnidentifiedError,
                                 "Server shutdown",
-- 
2.43.0


From e1753eaeeade45c9fc15f153cf11a20b70c99e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 17/51] fix: hislip: go to remote when the client asks for it

---
 hislip/src/server/session/asynchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 29a636d..b10412e 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -244,7 +244,7 @@ where
                                     //Enable remote and go to remote
                                     shared.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
-                                    dev.set_remote(false)
+                                    dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-- 
2.43.0


From 6e2b3e69f08e0fd5a1abae13b7ca72ae63ae47e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 18/51] fix: hislip: answer lock requests with the codes of the
 standard

---
 hislip/src/common/messages.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 267b1f5..e4522c1 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -452,13 +452,15 @@ impl Display for FeatureBitmap {
 pub(crate) enum RequestLockControl {
     Failure = 0,
     Success = 1,
-    Error = 2,
+    Error = 3,
 }
 
 impl From<SharedLockError> for RequestLockControl {
     fn from(err: SharedLockError) -> Self {
         match err {
-            SharedLockError::Timeout => RequestLockControl::Failure,
+            SharedLockError::Timeout
+            | SharedLockError::LockedByShared
+            | SharedLockError::LockedByExclusive => RequestLockControl::Failure,
             _ => RequestLockControl::Error,
         }
     }
-- 
2.43.0


From c83e35f34a9e28540cc645e6521883811130b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 19/51] fix: hislip: do not forget a device clear which stops a
 response

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 6e34f1a..5840b13 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -250,7 +250,7 @@ where
 
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
-                                                if self.clear.try_recv().is_ok() {
+                                                if !self.clear.is_empty() {
                                                     break;
                                                 }
 
-- 
2.43.0


From ab1cf72197ef6d6b26c0c2413f80a3e02962c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 20/51] fix: hislip: do not hold the lock handle while waiting
 for a lock

---
 hislip/src/server/session/asynchronous.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index b10412e..78153c3 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -10,7 +10,7 @@ use byteorder::{ByteOrder, NetworkEndian};
 use futures::future::Either;
 use futures::lock::Mutex;
 use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
-use lxi_device::lock::{LockHandle, SharedLockError, SharedLockMode, SpinMutex};
+use lxi_device::lock::{LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex};
 use lxi_device::{Device, DeviceError};
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
@@ -149,8 +149,8 @@ where
                                 // Release
                                 let message_id = message_parameter;
                                 log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Release async lock");
-                                let mut handle = self.handle.lock();
-                                let control = match handle.try_release() {
+                                let res = self.handle.lock().try_release();
+                                let control = match res {
                                     Ok(SharedLockMode::Exclusive) => {
                                         ReleaseLockControl::SuccessExclusive
                                     }
@@ -176,7 +176,7 @@ where
 
                                         log::debug!(peer=peer.to_string(), session_id=self.id, timeout=timeout; "Async lock: {:?}", lockstr);
                                         // Try to acquire lock
-                                        let mut handle = self.handle.lock();
+                                        let handle = RemoteLockHandle::new(self.handle.clone());
                                         let res = if timeout == 0 {
                                             // Try to lock immediately
                                             handle.try_acquire(lockstr.as_bytes())
-- 
2.43.0


From 628e4812604c6898024f9c042796b6c85de31c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 21/51] fix: hislip: do not hold the session or the lock handle
 while waiting for the device

---
 hislip/src/server/session/asynchronous.rs | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 78153c3..3a6b0d5 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -218,44 +218,43 @@ where
                             ..
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
-                            let mut shared = self.shared.lock().await;
-                            let handle = self.handle.lock();
+                            let handle = RemoteLockHandle::new(self.handle.clone());
                             let res = match request {
                                 0 => {
                                     // Disable remote
-                                    shared.enable_remote = false;
+                                    self.shared.lock().await.enable_remote = false;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 1 => {
                                     // Enable remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     Ok(())
                                 }
                                 2 => {
                                     // Disable remote and go to local
-                                    shared.enable_remote = false;
+                                    self.shared.lock().await.enable_remote = false;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 3 => {
                                     //Enable remote and go to remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     Ok(())
                                 }
                                 5 => {
                                     // Enable remote, got to remote, and set local lockout
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     dev.set_remote(true)
@@ -267,8 +266,6 @@ where
                                 }
                                 _ => Err(DeviceError::NotSupported),
                             };
-                            drop(shared);
-                            drop(handle);
 
                             match res {
                                 Ok(_) => {
@@ -353,15 +350,18 @@ where
 
                             let stb = {
                                 let shared = self.shared.lock().await;
-                                let handle = self.handle.lock();
+                                let sent = shared.sent_message_id;
+                                let enable_remote = shared.enable_remote;
+                                drop(shared);
+
+                                let handle = RemoteLockHandle::new(self.handle.clone());
                                 let mut dev = handle.inner_lock().await;
 
                                 // Calculate MAV bit
-                                let sent = shared.sent_message_id;
                                 let mav = if sent > message_id { 0x10 } else { 0x00 };
 
                                 // Enable remote
-                                if shared.enable_remote {
+                                if enable_remote {
                                     let _res = dev.set_remote(true);
                                 }
 
-- 
2.43.0


From 2809398b308a6bad069ab2013c74068bb048a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 22/51] fix: hislip: do not keep the device from others while
 writing to the client

---
 hislip/src/server/session/synchronous.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 5840b13..6ff9aab 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -175,6 +175,7 @@ where
                             message_type: MessageType::VendorSpecific(code),
                             ..
                         } => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream, NonFatalErrorCode::UnrecognizedVendorDefinedMessage,
                                 "Unrecognized Vendor Defined Message ({})", code
@@ -241,6 +242,9 @@ where
                                         };
                                         buffer.clear();
 
+                                        // Do not keep the device from others while sending
+                                        drop(dev);
+
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
@@ -277,6 +281,8 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(shared);
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -305,6 +311,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -318,6 +325,7 @@ where
                             ..
                         } => {
                             // Should've been handled above when AsyncDeviceClear was sent
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -334,6 +342,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Start/end TLS");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -350,6 +359,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Authentication Start/Exchange");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -357,6 +367,7 @@ where
                             )
                         }
                         msg => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -367,6 +378,7 @@ where
                 }
                 // Invalid message
                 Err(err) => {
+                    drop(dev);
                     if err.is_fatal() {
                         Message::from(err).write_to(&mut stream).await?;
                         return Err(io::ErrorKind::Other.into());
-- 
2.43.0


From 3e89a49c351c3ef37b208889b51fc59e5a0be320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 23/51] fix: hislip: do not hold the session table while
 refusing an asynchronous channel

---
 hislip/src/server/mod.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index e86db47..4cae2ad 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -329,24 +329,22 @@ where
                         } => {
                             // Connect to existing session
                             let id = (message_parameter & 0x0000FFFF) as u16;
-                            let session = {
-                                let mut guard = self.inner.lock().await;
-                                if let Some(s) = guard.get_session(id) {
-                                    s
-                                } else {
-                                    send_fatal!(peer=format!("{}", peer), session_id=id;
-                                    &mut stream, FatalErrorCode::InvalidInitialization,
-                                        "Invalid session id"
-                                    );
-                                }
+                            let session = self.inner.lock().await.get_session(id);
+                            let (shared, device) = if let Some(s) = session {
+                                s
+                            } else {
+                                send_fatal!(peer=format!("{}", peer), session_id=id;
+                                &mut stream, FatalErrorCode::InvalidInitialization,
+                                    "Invalid session id"
+                                );
                             };
 
-                            let (shared, device) = session.clone();
                             let mut session_guard = shared.lock().await;
 
                             // Check if async channel has alreasy been initialized for this session
                             if session_guard.is_initialized() {
                                 drop(session_guard);
+                                drop((shared, device));
                                 send_fatal!(peer=peer.to_string(), session_id=id;
                                 &mut stream, FatalErrorCode::InvalidInitialization,
                                     "Async session already initialized"
-- 
2.43.0


From fae1b15a7b7107a245b779a1331ade4af23e5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 24/51] fix: vxi11: answer undecodable arguments instead of
 closing the connection

---
 vxi11/src/common/onc_rpc/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index f60cc42..2c3e4ba 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -134,7 +134,8 @@ pub(crate) trait RpcService {
                         RpcError::ProcUnavail => xdr::AcceptStat::ProcUnavail,
                         RpcError::GarbageArgs => xdr::AcceptStat::GarbageArgs,
                         RpcError::SystemErr => xdr::AcceptStat::SystemErr,
-                        RpcError::Io(err) => return Err(err),
+                        // Could not deserialize the arguments
+                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
                         RpcError::RpcMissmatch(_) => unreachable!(),
                         RpcError::AuthError(_) => unreachable!(),
                         RpcError::Portmap => unreachable!(),
-- 
2.43.0


From 85950e2fa22ea7c6d8d65129c83a1194c395a20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 25/51] fix: vxi11: refuse unknown authentication flavours
 instead of closing the connection

---
 vxi11/src/common/onc_rpc/xdr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index 761fa91..c1495e0 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -303,6 +303,8 @@ pub(crate) enum AuthFlavour {
     None,
     Sys,
     Short,
+    /// Any other flavour, not supported here
+    Other(u32),
 }
 
 impl Default for AuthFlavour {
@@ -321,7 +323,7 @@ impl XdrDecode for AuthFlavour {
             0 => Self::None,
             1 => Self::Sys,
             2 => Self::Short,
-            _ => return Err(ErrorKind::Other.into()),
+            x => Self::Other(x),
         };
         Ok(())
     }
@@ -336,6 +338,7 @@ impl XdrEncode for AuthFlavour {
             AuthFlavour::None => 0,
             AuthFlavour::Sys => 1,
             AuthFlavour::Short => 2,
+            AuthFlavour::Other(x) => *x,
         })
     }
 }
-- 
2.43.0


From 79d5d1854849542d7d0194606e52963e5bb33cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 26/51] fix: vxi11: do not accept a record cut short by the end
 of the stream

---
 vxi11/src/common/onc_rpc/record.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/record.rs b/vxi11/src/common/onc_rpc/record.rs
index d9eccdd..30daf6f 100644
--- a/vxi11/src/common/onc_rpc/record.rs
+++ b/vxi11/src/common/onc_rpc/record.rs
@@ -20,10 +20,11 @@ where
         if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {
             return Err(ErrorKind::OutOfMemory.into());
         }
-        reader
-            .take((fragment_len & 0x7FFFFFFF) as u64)
-            .read_to_end(&mut buf)
-            .await?;
+        let n = reader.take(len as u64).read_to_end(&mut buf).await?;
+        if n < len {
+            // Fragment was cut short
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
 
         // Check if last fragment
         if fragment_len & 0x80000000 != 0 {
-- 
2.43.0


From 8194d2110fbb83c171968c748387c01d6ef56a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 27/51] fix: vxi11: do not decode opaque data or strings which
 are cut short

---
 vxi11/src/common/xdr/basic.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index c9dcb54..d51885f 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -25,7 +25,7 @@
 #![allow(dead_code)]
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
-use std::io::{Read, Result, Write};
+use std::io::{ErrorKind, Read, Result, Write};
 
 macro_rules! read_padding {
     ($reader:expr, $len:expr) => {
@@ -583,7 +583,10 @@ impl XdrDecode for Opaque {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as usize;
-        reader.take(len as u64).read_to_end(&mut self.0)?;
+        let n = reader.take(len as u64).read_to_end(&mut self.0)?;
+        if n < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
@@ -652,7 +655,10 @@ impl XdrDecode for String {
     {
         let len = reader.read_u32::<NetworkEndian>()? as u64;
         let mut s = reader.take(len);
-        s.read_to_string(self)?;
+        let n = s.read_to_string(self)? as u64;
+        if n < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
-- 
2.43.0


From 876f4a8ea72dcf15977efcb73d26319d2b7f1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 28/51] fix: vxi11: keep serving datagrams after a malformed
 one or a socket error

---
 vxi11/src/common/onc_rpc/mod.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 2c3e4ba..3e28ec2 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -3,9 +3,13 @@
 use std::{
     io::{self, Cursor, Error, ErrorKind, Write},
     sync::Arc,
+    time::Duration,
 };
 
-use async_std::net::{TcpStream, UdpSocket};
+use async_std::{
+    net::{TcpStream, UdpSocket},
+    task,
+};
 use async_trait::async_trait;
 
 use self::record::{read_record, write_record};
@@ -92,11 +96,23 @@ pub(crate) trait RpcService {
         loop {
             // Read message
             let mut buf = vec![0; 1500];
-            let (n, peer) = socket.recv_from(&mut buf).await?;
-
-            let reply = self.clone().handle_message(buf[..n].to_vec()).await?;
-
-            socket.send_to(&reply, peer).await?;
+            let (n, peer) = match socket.recv_from(&mut buf).await {
+                Ok(x) => x,
+                Err(err) => {
+                    log::warn!("Error receiving datagram: {}", err);
+                    task::sleep(Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
+
+            // A malformed message or unreachable peer should not affect others
+            let res = match self.clone().handle_message(buf[..n].to_vec()).await {
+                Ok(reply) => socket.send_to(&reply, peer).await.map(|_| ()),
+                Err(err) => Err(err),
+            };
+            if let Err(err) = res {
+                log::debug!("Error processing datagram from {}: {}", peer, err);
+            }
         }
     }
 
-- 
2.43.0


From 8ab2675908786f0b9197f21ea0d3d2957cbdca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 29/51] fix: vxi11: do not take the reply to another call, or
 bytes which were not received, for the reply

---
 vxi11/src/common/onc_rpc/mod.rs | 37 +++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 3e28ec2..ca76051 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -240,14 +240,22 @@ impl UdpRpcClient {
         self.socket.send(&args_cursor.into_inner()).await?;
 
         // Read response
-        let mut buf = vec![0; 1024];
-        self.socket.recv(&mut buf).await?;
-        let mut ret_cursor = Cursor::new(buf);
+        let (reply, mut ret_cursor) = loop {
+            let mut buf = vec![0; 1024];
+            let n = self.socket.recv(&mut buf).await?;
+            buf.truncate(n);
+            let mut ret_cursor = Cursor::new(buf);
+
+            let mut reply = xdr::RpcMessage::default();
+            reply.read_xdr(&mut ret_cursor)?;
+            // Skip replies to other calls
+            if reply.xid == self.xid {
+                break (reply, ret_cursor);
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -357,13 +365,20 @@ where
         write_record(&mut self.io, args_cursor.into_inner()).await?;
 
         // Read response
-        let fragment = read_record(&mut self.io, 1024 * 1024).await?;
-        let mut ret_cursor = Cursor::new(fragment);
+        let (reply, mut ret_cursor) = loop {
+            let fragment = read_record(&mut self.io, 1024 * 1024).await?;
+            let mut ret_cursor = Cursor::new(fragment);
+
+            let mut reply = xdr::RpcMessage::default();
+            reply.read_xdr(&mut ret_cursor)?;
+            // Skip replies to other calls
+            if reply.xid == self.xid {
+                break (reply, ret_cursor);
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
-- 
2.43.0


From a1f2b197413ca396ad1584db0f34c6b04684b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 30/51] fix: vxi11: do not panic if a client receives a call

---
 vxi11/src/common/onc_rpc/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index ca76051..627183a 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -287,9 +287,7 @@ impl UdpRpcClient {
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(RpcError::Io(ErrorKind::InvalidData.into())),
         }
     }
 
@@ -410,9 +408,7 @@ where
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(RpcError::Io(ErrorKind::InvalidData.into())),
         }
     }
 
-- 
2.43.0


From 9d9231623a4f499a85e1b56e9478986d92df5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 31/51] fix: vxi11: encode indirect calls and results as opaque
 data

---
 vxi11/src/client/portmapper.rs     | 4 ++--
 vxi11/src/common/portmapper/xdr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 8297625..5abfdc5 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -87,11 +87,11 @@ impl PortMapperClient {
             prog,
             vers,
             proc,
-            args: args_cursor.into_inner(),
+            args: Opaque(args_cursor.into_inner()),
         };
         let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
         let mut ret: RET = Default::default();
-        ret.read_xdr(&mut io::Cursor::new(res.res))?;
+        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
         Ok(ret)
     }
 }
diff --git a/vxi11/src/common/portmapper/xdr.rs b/vxi11/src/common/portmapper/xdr.rs
index bb59b8b..9ada69d 100644
--- a/vxi11/src/common/portmapper/xdr.rs
+++ b/vxi11/src/common/portmapper/xdr.rs
@@ -53,7 +53,7 @@ pub(crate) struct Callit {
     pub(crate) prog: u32,
     pub(crate) vers: u32,
     pub(crate) proc: u32,
-    pub(crate) args: Vec<u8>,
+    pub(crate) args: Opaque,
 }
 
 impl XdrEncode for Callit {
@@ -83,7 +83,7 @@ impl XdrDecode for Callit {
 #[derive(Debug, Default, Clone)]
 pub(crate) struct CallResult {
     pub(crate) port: u32,
-    pub(crate) res: Vec<u8>,
+    pub(crate) res: Opaque,
 }
 
 impl XdrEncode for CallResult {
-- 
2.43.0


From 1fb9055f4f43a78307a2bdeb263801308949d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 32/51] fix: vxi11: do not decode numbers which are out of
 range as other numbers

---
 vxi11/src/common/xdr/basic.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index d51885f..df6181b 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -100,7 +100,8 @@ impl XdrDecode for i16 {
     where
         RD: Read,
     {
-        *self = reader.read_i32::<NetworkEndian>()? as Self;
+        let x = reader.read_i32::<NetworkEndian>()?;
+        *self = x.try_into().map_err(|_| ErrorKind::InvalidData)?;
         Ok(())
     }
 }
@@ -119,7 +120,8 @@ impl XdrDecode for i8 {
     where
         RD: Read,
     {
-        *self = reader.read_i32::<NetworkEndian>()? as Self;
+        let x = reader.read_i32::<NetworkEndian>()?;
+        *self = x.try_into().map_err(|_| ErrorKind::InvalidData)?;
         Ok(())
     }
 }
@@ -183,7 +185,8 @@ impl XdrDecode for u16 {
     where
         RD: Read,
     {
-        *self = reader.read_u32::<NetworkEndian>()? as Self;
+        let x = reader.read_u32::<NetworkEndian>()?;
+        *self = x.try_into().map_err(|_| ErrorKind::InvalidData)?;
         Ok(())
     }
 }
-- 
2.43.0


From 5127e5f5ce5522367aa741b1631d45c4f71b9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 33/51] fix: vxi11: let the port mapper client reach other
 hosts over UDP

---
 vxi11/src/client/portmapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 5abfdc5..7d479c3 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -33,7 +33,7 @@ impl PortMapperClient {
     }
 
     pub async fn connect_udp(addrs: impl ToSocketAddrs) -> io::Result<Self> {
-        let sock = UdpSocket::bind("127.0.0.1:0").await?;
+        let sock = UdpSocket::bind("0.0.0.0:0").await?;
         sock.connect(addrs).await?;
         Ok(Self(RpcClient::Udp(UdpRpcClient::new(
             PORTMAPPER_PROG,
-- 
2.43.0


From 27133468046c2e14fdd98e9d6db4d5840a2d1f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 34/51] fix: vxi11: forget links which are destroyed or whose
 client disconnected

---
 vxi11/src/server/vxi11/abort_service.rs | 5 +++--
 vxi11/src/server/vxi11/core_service.rs  | 5 +++--
 vxi11/src/server/vxi11/mod.rs           | 2 ++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index a33283e..4ef9528 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -101,11 +101,12 @@ where
                 };
 
                 resp.error = match sender {
-                    Some(mut abort) => {
+                    // Closed when the link is gone
+                    Some(mut abort) if !abort.is_closed() => {
                         let _ = abort.try_send(());
                         xdr::DeviceErrorCode::NoError
                     }
-                    None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
+                    _ => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                 };
                 resp.write_xdr(ret)?;
                 Ok(())
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 894df22..7a3fa34 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -579,11 +579,12 @@ where
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
                 let resp = xdr::DeviceError {
-                    error: match get_link!(self.links, &parms.0) {
+                    error: match self.links.lock().await.remove(&parms.0) {
                         Some(link) => {
                             let mut inner = self.inner.lock().await;
 
-                            link.handle.force_release();
+                            // Releases any held locks
+                            drop(link);
                             inner.remove_link(parms.0);
                             xdr::DeviceErrorCode::NoError
                         }
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 049517a..ff34ab4 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -149,6 +149,8 @@ impl<DEV> VxiInner<DEV> {
     }
 
     fn new_link(&mut self, subaddr: &String) -> Result<(u32, Link<DEV>), ()> {
+        // Forget links of clients which have disconnected
+        self.links.retain(|_, abort| !abort.is_closed());
         let id = self.next_link_id();
         let (device, shared) = self.devices.get(subaddr).ok_or(())?;
         let handle = LockHandle::new(shared.clone(), device.clone());
-- 
2.43.0


From d5ba3413097b4e9dced5b54c70a6a34d7bf6d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 35/51] fix: vxi11: do not create links whose lock is refused,
 nor keep others waiting meanwhile

---
 vxi11/src/server/vxi11/core_service.rs | 37 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 7a3fa34..b53f36d 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -147,29 +147,36 @@ where
                     max_recv_size: self.max_recv_size,
                 };
 
-                let mut inner = self.inner.lock().await;
-                resp.error = match inner.new_link(&parms.device) {
+                // Do not keep other sessions waiting while waiting for the lock
+                let link = self.inner.lock().await.new_link(&parms.device);
+                resp.error = match link {
                     Ok((lid, mut link)) => {
-                        resp.lid = lid.into();
-
                         // Try to lock
-                        if parms.lock_device {
-                            let res = timeout(
+                        let res = if parms.lock_device {
+                            timeout(
                                 Duration::from_millis(parms.lock_timeout as u64),
                                 link.handle.async_acquire_exclusive(),
                             )
                             .await
-                            .map_or(Err(SharedLockError::Timeout), |f| f);
-                            match res {
-                                Ok(()) => {
-                                    log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
-                                }
-                                Err(err) => resp.error = err.into(),
+                            .map_or(Err(SharedLockError::Timeout), |f| f)
+                        } else {
+                            Ok(())
+                        };
+
+                        match res {
+                            Ok(()) => {
+                                log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}, locked={}", parms.device, parms.client_id, parms.lock_device);
+                                resp.lid = lid.into();
+                                self.links.lock().await.insert(lid, link);
+                                xdr::DeviceErrorCode::NoError
+                            }
+                            Err(err) => {
+                                log::debug!(peer=format!("{}", self.peer), link=lid; "Failed to lock new link, {:?}", err);
+                                drop(link);
+                                self.inner.lock().await.remove_link(lid);
+                                err.into()
                             }
                         }
-                        log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
-                        self.links.lock().await.insert(lid, link);
-                        xdr::DeviceErrorCode::NoError
                     }
                     Err(err) => {
                         log::debug!(peer=format!("{}", self.peer); "Failed to create new link, {:?}: {}", err, parms.device);
-- 
2.43.0


From be9ff7173a72387aaedfcdccd563d4c74b8318bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 36/51] fix: vxi11: do not panic on a missing termination
 character, and report the one found

---
 vxi11/src/server/vxi11/core_service.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index b53f36d..5340b7d 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -258,22 +258,20 @@ where
                     // Execute if END is set
                     resp.error = match dev {
                         Ok(_) => {
-                            let to_take = if parms.flags.is_termcharset() {
-                                let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));
+                            let mut to_take =
+                                min(link.out_buf.len(), parms.request_size as usize);
+
+                            if parms.flags.is_termcharset() {
+                                let pos = link.out_buf[..to_take]
+                                    .iter()
+                                    .position(|c| c.eq(&parms.term_char));
 
-                                // Take whatever is first terminator, or end
-                                let to_take = pos.map_or(parms.request_size as usize, |x| {
-                                    min(link.out_buf.len(), x + 1)
-                                });
                                 // Returning because of term_char
-                                if matches!(pos, Some(c) if c == to_take) {
+                                if let Some(pos) = pos {
+                                    to_take = pos + 1;
                                     resp.reason |= 0x2;
                                 }
-                                to_take
-                            } else {
-                                link.out_buf.len()
                             }
-                            .min(parms.request_size as usize);
 
                             // Returning because of request_size
                             if to_take == parms.request_size as usize {
-- 
2.43.0


From 54098937214fbe6b1ea1cefd74aebfa204dbca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 37/51] fix: vxi11: report the status byte when a response is
 available

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 5340b7d..19cf099 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -323,7 +323,7 @@ where
                                     // Replace MAV bit
                                     resp.stb &= 0xef;
                                     if !link.out_buf.is_empty() {
-                                        resp.stb &= 0x10;
+                                        resp.stb |= 0x10;
                                     }
                                     xdr::DeviceErrorCode::NoError
                                 }
-- 
2.43.0


From ca573a2496c329e14cf663590358beb22b763d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 38/51] fix: vxi11: do not let an abort stop an operation which
 starts later

---
 vxi11/src/server/vxi11/core_service.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 19cf099..2d558d6 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -31,9 +31,17 @@ macro_rules! get_link {
     };
 }
 
+/// Forget aborts received while no operation was waiting
+macro_rules! forget_aborts {
+    ($abort:expr) => {
+        while let Some(Some(())) = $abort.next().now_or_never() {}
+    };
+}
+
 macro_rules! lock_device {
     ($handle:expr, $flags:expr, $timeout:expr, $abort:expr) => {
         if $flags.is_waitlock() {
+            forget_aborts!($abort);
             select! {
                 d = timeout(
                     Duration::from_millis($timeout as u64),
@@ -455,14 +463,17 @@ where
 
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
-                        Some(link) if parms.flags.is_waitlock() => select! {
-                            d = timeout(
-                                Duration::from_millis(parms.lock_timeout as u64),
-                                link.handle.async_acquire_exclusive(),
-                            ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
-                            _ = link.abort.next() => Err(SharedLockError::Aborted)
+                        Some(link) if parms.flags.is_waitlock() => {
+                            forget_aborts!(link.abort);
+                            select! {
+                                d = timeout(
+                                    Duration::from_millis(parms.lock_timeout as u64),
+                                    link.handle.async_acquire_exclusive(),
+                                ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
+                                _ = link.abort.next() => Err(SharedLockError::Aborted)
+                            }
+                            .into()
                         }
-                        .into(),
                         Some(link) => link.handle.try_acquire_exclusive().into(),
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                     },
-- 
2.43.0


From cd2839b2ac26cf2a7deae23f29b7686e54e3f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:22 +0000
Subject: [PATCH 39/51] fix: vxi11: stop sending service requests when the link
 is gone, but not because one failed

---
 vxi11/src/server/vxi11/core_service.rs | 72 ++++++++++++--------------
 vxi11/src/server/vxi11/mod.rs          | 13 +++--
 2 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 2d558d6..9204de8 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -8,11 +8,7 @@ use std::{
 };
 
 use async_listen::ListenExt;
-use async_std::{
-    future::timeout,
-    net::TcpListener,
-    task::{self, JoinHandle},
-};
+use async_std::{future::timeout, net::TcpListener, task};
 use lxi_device::{lock::SharedLockError, trigger::Source, Device};
 
 use crate::common::{
@@ -21,7 +17,7 @@ use crate::common::{
     xdr::prelude::*,
 };
 
-use futures::{lock::Mutex, select, FutureExt, StreamExt};
+use futures::{channel::oneshot, lock::Mutex, select, select_biased, FutureExt, StreamExt};
 
 use super::{intr_client::VxiSrqClient, prelude::*, Link, VxiInner};
 
@@ -520,47 +516,47 @@ where
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
                         Some(link) => {
-                            let old = if parms.enable {
+                            if parms.enable {
                                 let client = self.srq.clone();
                                 let mut inner = self.inner.lock().await;
                                 let mut reader = inner.status.get_new_receiver();
 
+                                // Stops any old srq task
+                                let (sender, stopped) = oneshot::channel();
+                                let mut stopped = stopped.fuse();
+                                link.srq = Some(sender);
+
                                 // Spawn a new tasks which monitors srq events
-                                let fut: JoinHandle<Result<(), RpcError>> = task::spawn(
-                                    async move {
+                                task::spawn(async move {
+                                    loop {
                                         // Wait for status event
-                                        while let Some(stb) = reader.next().await {
-                                            // Check if interrupt channel is open
-                                            let mut tmp = client.lock().await;
-                                            if let Some(client) = tmp.as_mut() {
-                                                log::debug!(link=parms.lid.0; "Sending service request, stb={stb}");
-
-                                                // Send SRQ RPC to host
-                                                if let Err(err) =
-                                                    client.device_intr_srq(&parms.handle.0).await
-                                                {
-                                                    log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
-                                                    return Err(err);
-                                                }
-                                            } else {
-                                                log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
+                                        let stb = select_biased! {
+                                            _ = stopped => break,
+                                            stb = reader.next() => match stb {
+                                                Some(stb) => stb,
+                                                None => break,
+                                            },
+                                        };
+
+                                        // Check if interrupt channel is open
+                                        let mut tmp = client.lock().await;
+                                        if let Some(client) = tmp.as_mut() {
+                                            log::debug!(link=parms.lid.0; "Sending service request, stb={stb}");
+
+                                            // Send SRQ RPC to host
+                                            if let Err(err) =
+                                                client.device_intr_srq(&parms.handle.0).await
+                                            {
+                                                log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
                                             }
+                                        } else {
+                                            log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
                                         }
-                                        Ok(())
-                                    },
-                                );
-
-                                // Replace any old srq task
-                                link.srq_handle.replace(fut)
+                                    }
+                                    log::debug!(link=parms.lid.0; "Stopped srq task");
+                                });
                             } else {
-                                // Remove any old srq task
-                                link.srq_handle.take()
-                            };
-
-                            // Cancel old SRQ task
-                            if let Some(task) = old {
-                                task.cancel().await;
-                                log::debug!(peer=self.peer.to_string(), link=parms.lid.0; "Cancelled srq task");
+                                link.srq = None;
                             }
 
                             xdr::DeviceErrorCode::NoError
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index ff34ab4..5c6df17 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -1,9 +1,12 @@
 use std::{collections::HashMap, sync::Arc};
 
-use async_std::{net::ToSocketAddrs, task::JoinHandle};
+use async_std::net::ToSocketAddrs;
 
 use futures::{
-    channel::mpsc::{channel, Receiver, Sender},
+    channel::{
+        mpsc::{channel, Receiver, Sender},
+        oneshot,
+    },
     lock::Mutex,
 };
 use lxi_device::{
@@ -79,8 +82,8 @@ struct Link<DEV> {
 
     abort: Receiver<()>,
 
-    // Srq
-    srq_handle: Option<JoinHandle<Result<(), RpcError>>>,
+    // Srq, the task sending service requests stops when this is dropped
+    srq: Option<oneshot::Sender<()>>,
 
     // Buffers
     in_buf: Vec<u8>,
@@ -97,7 +100,7 @@ impl<DEV> Link<DEV> {
                 abort: receiver,
                 in_buf: Vec::new(),
                 out_buf: Vec::new(),
-                srq_handle: None,
+                srq: None,
             },
             sender,
         )
-- 
2.43.0


From 7bb9ca9e1c9e61022003b05507dcf95e03b3f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:22 +0000
Subject: [PATCH 40/51] fix: vxi11: let interrupt channels reach other hosts
 over UDP

---
 vxi11/src/server/vxi11/intr_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/intr_client.rs b/vxi11/src/server/vxi11/intr_client.rs
index f153acc..89a5fc8 100644
--- a/vxi11/src/server/vxi11/intr_client.rs
+++ b/vxi11/src/server/vxi11/intr_client.rs
@@ -29,7 +29,7 @@ impl VxiSrqClient {
         udp: bool,
     ) -> io::Result<Self> {
         let client = if udp {
-            let socket = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).await?;
+            let socket = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).await?;
             socket
                 .connect((Ipv4Addr::from(host_addr), host_port))
                 .await?;
-- 
2.43.0


From 94ae5d067adb7e7b499929bf39ce5aa91c13c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 41/51] fix: vxi11: do not wait for a stalled interrupt channel

---
 vxi11/src/server/vxi11/core_service.rs | 36 ++++++++++++++++++--------
 vxi11/src/server/vxi11/intr_client.rs  | 36 ++++++++++++++++++++------
 2 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 9204de8..3074f39 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -9,7 +9,11 @@ use std::{
 
 use async_listen::ListenExt;
 use async_std::{future::timeout, net::TcpListener, task};
-use lxi_device::{lock::SharedLockError, trigger::Source, Device};
+use lxi_device::{
+    lock::{SharedLockError, SpinMutex},
+    trigger::Source,
+    Device,
+};
 
 use crate::common::{
     onc_rpc::prelude::*,
@@ -83,7 +87,7 @@ where
                 max_recv_size: self.max_recv_size,
                 async_port: self.async_port,
                 links: Mutex::new(HashMap::new()),
-                srq: Arc::new(Mutex::new(None)),
+                srq: Arc::new(SpinMutex::new(None)),
             });
 
             task::spawn(async move {
@@ -108,7 +112,16 @@ pub struct VxiCoreSession<DEV> {
     // Will be dropped when client disconnects
     links: Mutex<HashMap<u32, Link<DEV>>>,
 
-    srq: Arc<Mutex<Option<VxiSrqClient>>>,
+    // Interrupt channel, closed when client disconnects
+    srq: Arc<SpinMutex<Option<Arc<VxiSrqClient>>>>,
+}
+
+impl<DEV> Drop for VxiCoreSession<DEV> {
+    fn drop(&mut self) {
+        if let Some(client) = self.srq.lock().take() {
+            client.close();
+        }
+    }
 }
 
 #[async_trait::async_trait]
@@ -517,7 +530,7 @@ where
                     error: match get_link!(self.links, &parms.lid.0) {
                         Some(link) => {
                             if parms.enable {
-                                let client = self.srq.clone();
+                                let srq = self.srq.clone();
                                 let mut inner = self.inner.lock().await;
                                 let mut reader = inner.status.get_new_receiver();
 
@@ -539,8 +552,8 @@ where
                                         };
 
                                         // Check if interrupt channel is open
-                                        let mut tmp = client.lock().await;
-                                        if let Some(client) = tmp.as_mut() {
+                                        let client = srq.lock().clone();
+                                        if let Some(client) = client {
                                             log::debug!(link=parms.lid.0; "Sending service request, stb={stb}");
 
                                             // Send SRQ RPC to host
@@ -620,9 +633,9 @@ where
 
                 let mut resp = xdr::DeviceError::default();
 
-                let mut srq = self.srq.lock().await;
+                let established = self.srq.lock().is_some();
 
-                if srq.is_some() {
+                if established {
                     resp.error = xdr::DeviceErrorCode::ChannelAlreadyEstablished
                 } else if let Ok(client) = VxiSrqClient::new(
                     parms.host_addr,
@@ -633,7 +646,7 @@ where
                 )
                 .await
                 {
-                    srq.replace(client);
+                    self.srq.lock().replace(Arc::new(client));
                     resp.error = xdr::DeviceErrorCode::NoError;
                 } else {
                     resp.error = xdr::DeviceErrorCode::ChannelNotEstablished;
@@ -651,8 +664,9 @@ where
                 let mut resp = xdr::DeviceError::default();
 
                 // Destroy interrupt RPC client
-                let mut srq = self.srq.lock().await;
-                if srq.take().is_some() {
+                let client = self.srq.lock().take();
+                if let Some(client) = client {
+                    client.close();
                     resp.error = xdr::DeviceErrorCode::NoError
                 } else {
                     resp.error = xdr::DeviceErrorCode::ChannelNotEstablished
diff --git a/vxi11/src/server/vxi11/intr_client.rs b/vxi11/src/server/vxi11/intr_client.rs
index 89a5fc8..78293b6 100644
--- a/vxi11/src/server/vxi11/intr_client.rs
+++ b/vxi11/src/server/vxi11/intr_client.rs
@@ -1,6 +1,10 @@
-use std::{io, net::Ipv4Addr};
+use std::{
+    io,
+    net::{Ipv4Addr, Shutdown},
+};
 
 use async_std::net::{TcpStream, UdpSocket};
+use futures::lock::Mutex;
 
 use crate::common::{
     onc_rpc::prelude::*,
@@ -10,13 +14,23 @@ use crate::common::{
 
 pub(crate) struct VxiSrqClient {
     // Service request
-    client: RpcClient,
+    client: Mutex<RpcClient>,
+    // Used to close the channel while a service request is being sent
+    stream: Option<TcpStream>,
 }
 
 impl VxiSrqClient {
-    pub(crate) async fn device_intr_srq(&mut self, handle: &[u8]) -> Result<(), RpcError> {
+    pub(crate) async fn device_intr_srq(&self, handle: &[u8]) -> Result<(), RpcError> {
         let args = xdr::DeviceSrqParms::new(Opaque(handle.to_vec()));
-        self.client.call_no_reply(DEVICE_INTR_SRQ, args).await
+        let mut client = self.client.lock().await;
+        client.call_no_reply(DEVICE_INTR_SRQ, args).await
+    }
+
+    /// Close the channel, also if the host does not read what is being sent
+    pub(crate) fn close(&self) {
+        if let Some(stream) = &self.stream {
+            let _ = stream.shutdown(Shutdown::Both);
+        }
     }
 }
 
@@ -28,16 +42,22 @@ impl VxiSrqClient {
         prog_vers: u32,
         udp: bool,
     ) -> io::Result<Self> {
-        let client = if udp {
+        let (client, stream) = if udp {
             let socket = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).await?;
             socket
                 .connect((Ipv4Addr::from(host_addr), host_port))
                 .await?;
-            RpcClient::Udp(UdpRpcClient::new(prog_num, prog_vers, socket))
+            let client = RpcClient::Udp(UdpRpcClient::new(prog_num, prog_vers, socket));
+            (client, None)
         } else {
             let stream = TcpStream::connect((Ipv4Addr::from(host_addr), host_port)).await?;
-            RpcClient::Tcp(StreamRpcClient::new(stream, prog_num, prog_vers))
+            let client =
+                RpcClient::Tcp(StreamRpcClient::new(stream.clone(), prog_num, prog_vers));
+            (client, Some(stream))
         };
-        Ok(Self { client })
+        Ok(Self {
+            client: Mutex::new(client),
+            stream,
+        })
     }
 }
-- 
2.43.0


From a260548710a764fccf4d197be9c74451b3a0d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 42/51] fix: vxi11: do not lose a service request when the
 handle is changed

---
 vxi11/src/server/vxi11/core_service.rs | 22 ++++++++++++++--------
 vxi11/src/server/vxi11/mod.rs          | 10 ++++++++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 3074f39..7a48562 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -23,7 +23,7 @@ use crate::common::{
 
 use futures::{channel::oneshot, lock::Mutex, select, select_biased, FutureExt, StreamExt};
 
-use super::{intr_client::VxiSrqClient, prelude::*, Link, VxiInner};
+use super::{intr_client::VxiSrqClient, prelude::*, Link, LinkSrq, VxiInner};
 
 macro_rules! get_link {
     ($links:expr, $lid:expr) => {
@@ -529,15 +529,23 @@ where
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
                         Some(link) => {
-                            if parms.enable {
+                            if !parms.enable {
+                                link.srq = None;
+                            } else if let Some(srq) = &link.srq {
+                                // Keep monitoring, but with the new handle
+                                *srq.handle.lock() = parms.handle.0;
+                            } else {
                                 let srq = self.srq.clone();
                                 let mut inner = self.inner.lock().await;
                                 let mut reader = inner.status.get_new_receiver();
 
-                                // Stops any old srq task
+                                let handle = Arc::new(SpinMutex::new(parms.handle.0));
                                 let (sender, stopped) = oneshot::channel();
                                 let mut stopped = stopped.fuse();
-                                link.srq = Some(sender);
+                                link.srq = Some(LinkSrq {
+                                    handle: handle.clone(),
+                                    _stop: sender,
+                                });
 
                                 // Spawn a new tasks which monitors srq events
                                 task::spawn(async move {
@@ -557,8 +565,8 @@ where
                                             log::debug!(link=parms.lid.0; "Sending service request, stb={stb}");
 
                                             // Send SRQ RPC to host
-                                            if let Err(err) =
-                                                client.device_intr_srq(&parms.handle.0).await
+                                            let handle = handle.lock().clone();
+                                            if let Err(err) = client.device_intr_srq(&handle).await
                                             {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
                                             }
@@ -568,8 +576,6 @@ where
                                     }
                                     log::debug!(link=parms.lid.0; "Stopped srq task");
                                 });
-                            } else {
-                                link.srq = None;
                             }
 
                             xdr::DeviceErrorCode::NoError
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 5c6df17..166c550 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -76,14 +76,20 @@ where
     }
 }
 
+/// The task sending service requests of a link, which stops when this is dropped
+struct LinkSrq {
+    handle: Arc<SpinMutex<Vec<u8>>>,
+    _stop: oneshot::Sender<()>,
+}
+
 struct Link<DEV> {
     id: u32,
     handle: LockHandle<DEV>,
 
     abort: Receiver<()>,
 
-    // Srq, the task sending service requests stops when this is dropped
-    srq: Option<oneshot::Sender<()>>,
+    // Srq
+    srq: Option<LinkSrq>,
 
     // Buffers
     in_buf: Vec<u8>,
-- 
2.43.0


From e4473a2c01b6b278eda745ab000d7bd7a3ce2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 43/51] fix: raw: keep accepting when a client is gone before
 it is accepted

---
 raw/src/server/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index 6ef1a1c..4489c48 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -43,13 +43,23 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // The client is already gone
+                    log::warn!("Error accepting client: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
             let device = device.clone();
 
-            stream.set_nodelay(true)?;
+            if let Err(err) = stream.set_nodelay(true) {
+                log::warn!("Error accepting client: {}", err);
+                continue;
+            }
 
             task::spawn(async move {
                 let (reader, writer) = stream.split();
@@ -86,7 +96,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // The client is already gone
+                    log::warn!("Error accepting client: {}", err);
+                    continue;
+                }
+            };
             log::info!("Accepted from: {:?}", peer);
 
             let shared_lock = shared_lock.clone();
-- 
2.43.0


From 93f9b05d5014e9baeb832e519d3ed4672333da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 44/51] fix: telnet: keep accepting when a client is gone
 before it is accepted

---
 telnet/src/server/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index f1d22f6..ea79b84 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -115,7 +115,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // The client is already gone
+                    log::warn!("Error accepting client: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
-- 
2.43.0


From dbed1eeab0d3a586391bc4adeaf0e55a0e016b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 45/51] fix: hislip: keep accepting when a client is gone
 before it is accepted or accept fails

---
 hislip/src/server/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index 4cae2ad..3d6396e 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -3,9 +3,11 @@ use std::collections::HashMap;
 use std::io;
 use std::str::from_utf8;
 use std::sync::Weak;
+use std::time::Duration;
 
 use async_std::net::{TcpListener, ToSocketAddrs};
 use async_std::sync::Arc;
+use async_std::task;
 
 use futures::task::{Spawn, SpawnExt};
 use futures::{AsyncRead, AsyncWrite, AsyncWriteExt, Stream, StreamExt};
@@ -174,8 +176,23 @@ where
         let listener = TcpListener::bind(addr).await?;
         let mut incoming = listener.incoming();
         while let Some(stream) = incoming.next().await {
-            let stream = stream?;
-            let peer = stream.peer_addr()?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(err) => {
+                    // Might be out of some resource, do not try again at once
+                    log::warn!("Listening error: {}", err);
+                    task::sleep(Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // The client is already gone
+                    log::warn!("Error accepting client: {}", err);
+                    continue;
+                }
+            };
 
             let s = self.clone();
             let t = srq.get_new_receiver();
-- 
2.43.0


From 9719945034161bc78fabac8ba0f99f01c224f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 46/51] fix: vxi11: keep accepting when a client is gone before
 it is accepted

---
 vxi11/src/server/portmapper.rs          | 9 ++++++++-
 vxi11/src/server/vxi11/abort_service.rs | 9 ++++++++-
 vxi11/src/server/vxi11/core_service.rs  | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 68cbddc..6150857 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -64,7 +64,14 @@ impl<const N: usize> StaticPortMap<N> {
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // The client is already gone
+                    log::warn!("Error accepting client: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index 4ef9528..caeee51 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -42,7 +42,14 @@ where
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // The client is already gone
+                    log::warn!("Error accepting client: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 7a48562..ff67c8a 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -79,7 +79,14 @@ where
             .handle_errors(Duration::from_millis(100))
             .backpressure(10);
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // The client is already gone
+                    log::warn!("Error accepting client: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
             let s = Arc::new(VxiCoreSession {
                 peer,
-- 
2.43.0


From a0af43852a112068d0fa2d671fecdc7d911d4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 47/51] fix: vxi11: bind the core server to the core port

---
 vxi11/src/server/vxi11/core_service.rs | 3 ++-
 vxi11/src/server/vxi11/mod.rs          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index ff67c8a..350022d 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -59,6 +59,7 @@ macro_rules! lock_device {
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
     pub(super) max_recv_size: u32,
+    pub(super) core_port: u16,
     pub(super) async_port: u16,
 }
 
@@ -67,7 +68,7 @@ where
     DEV: Device + Send + 'static,
 {
     pub async fn bind(self: Arc<Self>, addrs: IpAddr) -> io::Result<()> {
-        let listener = TcpListener::bind((addrs, self.async_port)).await?;
+        let listener = TcpListener::bind((addrs, self.core_port)).await?;
         self.serve(listener).await
     }
 
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 166c550..7f54eb8 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -258,6 +258,7 @@ impl<DEV> VxiServerBuilder<DEV> {
         (
             Arc::new(VxiCoreServer {
                 inner: inner.clone(),
+                core_port: self.core_port,
                 async_port: self.async_port,
                 max_recv_size: 128 * 1024,
             }),
-- 
2.43.0


From 27f155563821fb5ef88cc943ccb9e2c07ded8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 48/51] fix: status: receivers that left are forgotten also if
 no status is sent

---
 device/src/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/status.rs b/device/src/status.rs
index da56575..b549d2e 100644
--- a/device/src/status.rs
+++ b/device/src/status.rs
@@ -34,6 +34,8 @@ impl Sender {
 
     pub fn get_new_receiver(&mut self) -> Receiver {
         let mut senders = self.senders.lock();
+        // Forget receivers which are gone, also if no status is ever sent
+        senders.retain(|sender| !sender.is_closed());
         let (sender, receiver) = mpsc::channel(1);
         senders.push(sender);
         receiver
-- 
2.43.0


From fe90fc0800714612bea10a2c1b53a556c5bad0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 49/51] fix: vxi11: receive long replies over UDP

---
 vxi11/src/common/onc_rpc/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 627183a..5869977 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -241,7 +241,8 @@ impl UdpRpcClient {
 
         // Read response
         let (reply, mut ret_cursor) = loop {
-            let mut buf = vec![0; 1024];
+            // A reply may be as long as a datagram can be
+            let mut buf = vec![0; 65536];
             let n = self.socket.recv(&mut buf).await?;
             buf.truncate(n);
             let mut ret_cursor = Cursor::new(buf);
-- 
2.43.0


From 6b379604cfc7d9f64e7ba1b610bc90e013de7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 50/51] fix: hislip: send an empty response as well

---
 hislip/src/server/session/synchronous.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 6ff9aab..3aa50f2 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -252,6 +252,15 @@ where
                                                 .peekable();
                                             drop(shared);
 
+                                            // An empty response has an end as well
+                                            if data.is_empty() && self.clear.is_empty() {
+                                                MessageType::DataEnd
+                                                    .message_params(0, message_id)
+                                                    .no_payload()
+                                                    .write_to(&mut stream)
+                                                    .await?;
+                                            }
+
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
                                                 if !self.clear.is_empty() {
-- 
2.43.0


From a5917f0f7986d2c38394ba87d43e5d85ab83782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 51/51] fix: hislip: check the lock again before clearing a
 device that was in use

---
 hislip/src/server/session/synchronous.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 3aa50f2..d2ac175 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -108,7 +108,10 @@ where
                 }) => {
                     if self.handle.can_lock().is_ok() {
                         let mut dev = self.handle.inner_lock().await;
-                        let _res = dev.clear();
+                        // A lock may have been granted to another handle while waiting
+                        if self.handle.can_lock().is_ok() {
+                            let _res = dev.clear();
+                        }
                     }
 
                     break self
-- 
2.43.0

