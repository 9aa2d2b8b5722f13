From 30d4f75d5a5950767b29d8b48f1e63524722a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 01/48] fix: re-check the session lock once the device is
 obtained

A session waiting for the device could be handed it although another session
had been granted an exclusive or shared lock while it waited.
---
 device/src/lock.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 6595319..adadb2b 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -345,8 +345,11 @@ impl<DEV> LockHandle<DEV> {
     pub fn try_lock(&self) -> Result<MutexGuard<DEV>, SharedLockError> {
         // Check any active locks
         self.can_lock()?;
-        // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        // Lock device
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // Someone else may have been granted a lock in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Lock device if allowed
@@ -366,6 +369,11 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // Someone else may have been granted a lock while waiting for the device
+                            if self.can_lock().is_err() {
+                                drop(guard);
+                                continue;
+                            }
                             log::trace!(id=self.id; "Locked!");
                             return Ok(guard)
                         },
@@ -446,8 +454,11 @@ impl<DEV> RemoteLockHandle<DEV> {
     pub async fn try_lock(&self) -> Result<MutexGuard<DEV>, SharedLockError> {
         // Check any active locks
         self.can_lock()?;
-        // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        // Lock device
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // Someone else may have been granted a lock in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Wait for device becoming onlocked (or handle acquiring a lock) and available
@@ -470,6 +481,11 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // Someone else may have been granted a lock while waiting for the device
+                            if self.can_lock().is_err() {
+                                drop(guard);
+                                continue;
+                            }
                             log::trace!("Locked!");
                             return Ok(guard)
                         },
-- 
2.43.0


From 271bc387bb7416286abcbe3ae9cc1a5be658d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 02/48] fix: forget cancelled lock waiters

Every wait for the device registered a waiter that was only removed when some
lock changed hands, so a session that never meets a lock grew the list forever.
---
 device/src/lock.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index adadb2b..19eb868 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -78,6 +78,9 @@ impl SharedLock {
     }
 
     fn listen(&mut self) -> Receiver<()> {
+        // Forget about waiters that have given up
+        self.event.retain(|sender| !sender.is_canceled());
+
         let (sender, receiver) = channel();
         self.event.push(sender);
         receiver
-- 
2.43.0


From 01e53a5e231cf4de108f3079268876ee8578506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 03/48] fix: do not execute an unterminated command on a raw
 socket

At end of input the last byte of a command without terminator was dropped and
the rest executed.
---
 raw/src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index da13cc6..7d587ce 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -138,6 +138,12 @@ impl Server {
 
             log::trace!("{:?} read {} bytes", peer, cmd.len());
 
+            // Disconnected in the middle of a command, do not execute half of it
+            if cmd.last() != Some(&self.0.read_termination) {
+                log::warn!("{:?} disconnected with an unterminated command", peer);
+                break;
+            }
+
             let resp = {
                 let mut device = handle.async_lock().await.unwrap();
                 cmd.pop(); // Remove read_termination
-- 
2.43.0


From ad7289fb9962088d0eb2953765292b54cd4de998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 04/48] fix: send IAC GA as telnet go-ahead

\xff\x03 is not a telnet command, go-ahead is 249.
---
 telnet/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 905bf82..ee6ccbf 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -87,7 +87,7 @@ impl Server {
             stream.write_all(&prompt).await?;
             // Send a go ahead
             if !instance.options.get_option(options::SGA).local_state {
-                stream.write_all(b"\xff\x03").await?;
+                stream.write_all(b"\xff\xf9").await?;
             }
 
             // Read a line from stream.
-- 
2.43.0


From 7fc252c82df72fb52e1dd7b9202cda86da85897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 05/48] fix: keep serving when an accepted connection is
 already gone

A client that resets its connection before it is accepted makes peer_addr()
fail, which ended the whole server.
---
 hislip/src/server/mod.rs                | 20 ++++++++++++++++++--
 raw/src/server/mod.rs                   | 22 +++++++++++++++++++---
 telnet/src/server/mod.rs                |  9 ++++++++-
 vxi11/src/server/portmapper.rs          |  9 ++++++++-
 vxi11/src/server/vxi11/abort_service.rs |  9 ++++++++-
 vxi11/src/server/vxi11/core_service.rs  |  9 ++++++++-
 6 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index e86db47..93f9289 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use std::io;
 use std::str::from_utf8;
 use std::sync::Weak;
+use std::time::Duration;
 
 use async_std::net::{TcpListener, ToSocketAddrs};
 use async_std::sync::Arc;
@@ -174,8 +175,23 @@ where
         let listener = TcpListener::bind(addr).await?;
         let mut incoming = listener.incoming();
         while let Some(stream) = incoming.next().await {
-            let stream = stream?;
-            let peer = stream.peer_addr()?;
+            // A failed connection should not stop the server
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    // Might be out of resources, do not retry immediately
+                    async_std::task::sleep(Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
 
             let s = self.clone();
             let t = srq.get_new_receiver();
diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index 7d587ce..4efacf0 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -43,13 +43,22 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            // The connection may already be gone, this should not stop the server
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
             let device = device.clone();
 
-            stream.set_nodelay(true)?;
+            if let Err(err) = stream.set_nodelay(true) {
+                log::warn!("Failed to set nodelay: {}", err);
+            }
 
             task::spawn(async move {
                 let (reader, writer) = stream.split();
@@ -86,7 +95,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            // The connection may already be gone, this should not stop the server
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::info!("Accepted from: {:?}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index ee6ccbf..2548bdf 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -42,7 +42,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            // The connection may already be gone, this should not stop the server
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 68cbddc..88d4652 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -64,7 +64,14 @@ impl<const N: usize> StaticPortMap<N> {
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            // The connection may already be gone, this should not stop the server
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index a33283e..4eef914 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -42,7 +42,14 @@ where
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            // The connection may already be gone, this should not stop the server
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 894df22..afacb7a 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -71,7 +71,14 @@ where
             .handle_errors(Duration::from_millis(100))
             .backpressure(10);
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            // The connection may already be gone, this should not stop the server
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
             let s = Arc::new(VxiCoreSession {
                 peer,
-- 
2.43.0


From 8b9c8607a51d19d9b328f2dd19cf03e62bb2111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 06/48] fix: do not drop the last byte of a telnet line ended
 by a bare LF

---
 telnet/src/server/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 2548bdf..fd58a16 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -122,8 +122,10 @@ impl Server {
                             }
 
                             if b == b'\n' {
-                                // Remove \r
-                                cmd.pop();
+                                // Remove \r if any
+                                if cmd.last() == Some(&b'\r') {
+                                    cmd.pop();
+                                }
                                 // Lock device and execute
                                 let resp = {
                                     let mut device = handle.async_lock().await.unwrap();
-- 
2.43.0


From 6bc8cf291a9c8a24574832c54eafa0a6687904bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 07/48] fix: end a telnet session when the client disconnects

A read of zero bytes was not noticed, the session kept sending prompts forever.
---
 telnet/src/server/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index fd58a16..cba019b 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -71,7 +71,7 @@ impl Server {
         mut stream: IO,
         shared_lock: Arc<SpinMutex<SharedLock>>,
         device: Arc<Mutex<DEV>>,
-        _peer: SA,
+        peer: SA,
     ) -> io::Result<()>
     where
         DEV: Device + Send,
@@ -99,6 +99,10 @@ impl Server {
 
             // Read a line from stream.
             let n = stream.read(&mut buf).await?;
+            if n == 0 {
+                log::info!("{:?} disconnected", peer);
+                break Ok(());
+            }
 
             let events = instance.receive(&buf[..n]);
             for event in events {
-- 
2.43.0


From 6b1774a06cf3a91fd7c26f30d8bee4dcbe3e07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 08/48] fix: bind the VXI-11 core server to the core port

---
 vxi11/src/server/vxi11/core_service.rs | 3 ++-
 vxi11/src/server/vxi11/mod.rs          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index afacb7a..79da2e0 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -51,6 +51,7 @@ macro_rules! lock_device {
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
     pub(super) max_recv_size: u32,
+    pub(super) core_port: u16,
     pub(super) async_port: u16,
 }
 
@@ -59,7 +60,7 @@ where
     DEV: Device + Send + 'static,
 {
     pub async fn bind(self: Arc<Self>, addrs: IpAddr) -> io::Result<()> {
-        let listener = TcpListener::bind((addrs, self.async_port)).await?;
+        let listener = TcpListener::bind((addrs, self.core_port)).await?;
         self.serve(listener).await
     }
 
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 049517a..04c5454 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -247,6 +247,7 @@ impl<DEV> VxiServerBuilder<DEV> {
         (
             Arc::new(VxiCoreServer {
                 inner: inner.clone(),
+                core_port: self.core_port,
                 async_port: self.async_port,
                 max_recv_size: 128 * 1024,
             }),
-- 
2.43.0


From e5517ca66dafa5aca4fef8d3873422287982d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 09/48] fix: VXI-11 read no longer panics or loses reason bits
 when a termination character is set

---
 vxi11/src/server/vxi11/core_service.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 79da2e0..c393494 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -259,22 +259,20 @@ where
                     // Execute if END is set
                     resp.error = match dev {
                         Ok(_) => {
-                            let to_take = if parms.flags.is_termcharset() {
-                                let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));
+                            // Take whatever is requested or available
+                            let mut to_take = min(parms.request_size as usize, link.out_buf.len());
+
+                            if parms.flags.is_termcharset() {
+                                let pos = link.out_buf[..to_take]
+                                    .iter()
+                                    .position(|c| c.eq(&parms.term_char));
 
-                                // Take whatever is first terminator, or end
-                                let to_take = pos.map_or(parms.request_size as usize, |x| {
-                                    min(link.out_buf.len(), x + 1)
-                                });
                                 // Returning because of term_char
-                                if matches!(pos, Some(c) if c == to_take) {
+                                if let Some(x) = pos {
+                                    to_take = x + 1;
                                     resp.reason |= 0x2;
                                 }
-                                to_take
-                            } else {
-                                link.out_buf.len()
                             }
-                            .min(parms.request_size as usize);
 
                             // Returning because of request_size
                             if to_take == parms.request_size as usize {
-- 
2.43.0


From b9276160ab5982a56147d6bbd57967af33f25ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 10/48] fix: VXI-11 clear refused by a lock leaves the link's
 buffers alone

---
 vxi11/src/server/vxi11/core_service.rs | 8 +++++---
 vxi11/src/server/vxi11/mod.rs          | 5 -----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index c393494..98c883d 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -388,8 +388,6 @@ where
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
                         Some(link) => {
-                            link.clear();
-
                             let dev = lock_device!(
                                 link.handle,
                                 parms.flags,
@@ -398,7 +396,11 @@ where
                             );
 
                             match dev {
-                                Ok(mut d) => d.clear().into(),
+                                Ok(mut d) => {
+                                    link.in_buf.clear();
+                                    link.out_buf.clear();
+                                    d.clear().into()
+                                }
                                 Err(err) => err.into(),
                             }
                         }
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 04c5454..8e97df2 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -103,11 +103,6 @@ impl<DEV> Link<DEV> {
         )
     }
 
-    fn clear(&mut self) {
-        self.in_buf.clear();
-        self.out_buf.clear();
-    }
-
     fn close(&mut self) {
         log::trace!("Link {} closed", self.id);
         // Release any held locks
-- 
2.43.0


From 5b31d8ace7ebfadcb705702bca4bc5b06dbfa234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 11/48] fix: report message available in the VXI-11 status byte

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 98c883d..f607e04 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -324,7 +324,7 @@ where
                                     // Replace MAV bit
                                     resp.stb &= 0xef;
                                     if !link.out_buf.is_empty() {
-                                        resp.stb &= 0x10;
+                                        resp.stb |= 0x10;
                                     }
                                     xdr::DeviceErrorCode::NoError
                                 }
-- 
2.43.0


From 0006b41d2d5e3d460310b93d42ebca1cb144a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 12/48] fix: VXI-11 destroy_link removes the link and stops its
 service requests

---
 vxi11/src/server/vxi11/core_service.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index f607e04..7603e01 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -587,8 +587,13 @@ where
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
                 let resp = xdr::DeviceError {
-                    error: match get_link!(self.links, &parms.0) {
-                        Some(link) => {
+                    error: match self.links.lock().await.remove(&parms.0) {
+                        Some(mut link) => {
+                            // Stop monitoring srq events
+                            if let Some(task) = link.srq_handle.take() {
+                                task.cancel().await;
+                            }
+
                             let mut inner = self.inner.lock().await;
 
                             link.handle.force_release();
-- 
2.43.0


From 25781a15df99b3b538cdbc50804021c9345707d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 13/48] fix: forget the links of a VXI-11 client that
 disconnects

---
 vxi11/src/server/vxi11/core_service.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 7603e01..9a00880 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -91,9 +91,10 @@ where
             });
 
             task::spawn(async move {
-                if let Err(err) = s.serve_tcp_stream(stream).await {
+                if let Err(err) = s.clone().serve_tcp_stream(stream).await {
                     log::debug!("Error processing client: {}", err)
                 }
+                s.close().await;
                 drop(token);
             });
         }
@@ -115,6 +116,18 @@ pub struct VxiCoreSession<DEV> {
     srq: Arc<Mutex<Option<VxiSrqClient>>>,
 }
 
+impl<DEV> VxiCoreSession<DEV> {
+    /// Destroy all links created by this session
+    async fn close(&self) {
+        for (lid, mut link) in self.links.lock().await.drain() {
+            if let Some(task) = link.srq_handle.take() {
+                task.cancel().await;
+            }
+            self.inner.lock().await.remove_link(lid);
+        }
+    }
+}
+
 #[async_trait::async_trait]
 impl<DEV> RpcService for VxiCoreSession<DEV>
 where
-- 
2.43.0


From cba1ab671dbc166df4f8fa4910cbdb7d3330e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 14/48] fix: an abort with nothing to abort does not abort a
 later VXI-11 operation

---
 vxi11/src/server/vxi11/core_service.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 9a00880..517d51f 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -31,9 +31,17 @@ macro_rules! get_link {
     };
 }
 
+/// Forget aborts which arrived when there was nothing to abort
+macro_rules! drop_aborts {
+    ($abort:expr) => {
+        while let Ok(Some(())) = $abort.try_next() {}
+    };
+}
+
 macro_rules! lock_device {
     ($handle:expr, $flags:expr, $timeout:expr, $abort:expr) => {
         if $flags.is_waitlock() {
+            drop_aborts!($abort);
             select! {
                 d = timeout(
                     Duration::from_millis($timeout as u64),
@@ -471,14 +479,17 @@ where
 
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
-                        Some(link) if parms.flags.is_waitlock() => select! {
-                            d = timeout(
-                                Duration::from_millis(parms.lock_timeout as u64),
-                                link.handle.async_acquire_exclusive(),
-                            ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
-                            _ = link.abort.next() => Err(SharedLockError::Aborted)
+                        Some(link) if parms.flags.is_waitlock() => {
+                            drop_aborts!(link.abort);
+                            select! {
+                                d = timeout(
+                                    Duration::from_millis(parms.lock_timeout as u64),
+                                    link.handle.async_acquire_exclusive(),
+                                ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
+                                _ = link.abort.next() => Err(SharedLockError::Aborted)
+                            }
+                            .into()
                         }
-                        .into(),
                         Some(link) => link.handle.try_acquire_exclusive().into(),
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                     },
-- 
2.43.0


From 2f1074f2bf7541173ba0e198d5aa6a5ce3f66bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 15/48] fix: VXI-11 create_link reports a lock it could not get
 and does not block others while waiting

---
 vxi11/src/server/vxi11/core_service.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 517d51f..51006cb 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -176,10 +176,11 @@ where
                     max_recv_size: self.max_recv_size,
                 };
 
-                let mut inner = self.inner.lock().await;
-                resp.error = match inner.new_link(&parms.device) {
+                // Do not keep others from creating links while waiting for a lock
+                let new_link = self.inner.lock().await.new_link(&parms.device);
+                resp.error = match new_link {
                     Ok((lid, mut link)) => {
-                        resp.lid = lid.into();
+                        let mut error = xdr::DeviceErrorCode::NoError;
 
                         // Try to lock
                         if parms.lock_device {
@@ -193,12 +194,19 @@ where
                                 Ok(()) => {
                                     log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
                                 }
-                                Err(err) => resp.error = err.into(),
+                                Err(err) => error = err.into(),
                             }
                         }
-                        log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
-                        self.links.lock().await.insert(lid, link);
-                        xdr::DeviceErrorCode::NoError
+
+                        if error != xdr::DeviceErrorCode::NoError {
+                            // No link without the requested lock
+                            self.inner.lock().await.remove_link(lid);
+                        } else {
+                            resp.lid = lid.into();
+                            log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
+                            self.links.lock().await.insert(lid, link);
+                        }
+                        error
                     }
                     Err(err) => {
                         log::debug!(peer=format!("{}", self.peer); "Failed to create new link, {:?}: {}", err, parms.device);
-- 
2.43.0


From 6c3cea2a9c27224fc013fbfcbcacfd4afffaef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 16/48] fix: reject truncated XDR opaque data and strings

---
 vxi11/src/common/xdr/basic.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index c9dcb54..1e64a9d 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -25,7 +25,7 @@
 #![allow(dead_code)]
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
-use std::io::{Read, Result, Write};
+use std::io::{ErrorKind, Read, Result, Write};
 
 macro_rules! read_padding {
     ($reader:expr, $len:expr) => {
@@ -583,7 +583,10 @@ impl XdrDecode for Opaque {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as usize;
-        reader.take(len as u64).read_to_end(&mut self.0)?;
+        let n = reader.take(len as u64).read_to_end(&mut self.0)?;
+        if n != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
@@ -652,7 +655,10 @@ impl XdrDecode for String {
     {
         let len = reader.read_u32::<NetworkEndian>()? as u64;
         let mut s = reader.take(len);
-        s.read_to_string(self)?;
+        let n = s.read_to_string(self)?;
+        if n as u64 != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
-- 
2.43.0


From 08d4d7b94cbbfa24d5414657ea1b5f147736b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 17/48] fix: do not process a truncated RPC record

---
 vxi11/src/common/onc_rpc/record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/record.rs b/vxi11/src/common/onc_rpc/record.rs
index d9eccdd..da9fba7 100644
--- a/vxi11/src/common/onc_rpc/record.rs
+++ b/vxi11/src/common/onc_rpc/record.rs
@@ -20,10 +20,13 @@ where
         if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {
             return Err(ErrorKind::OutOfMemory.into());
         }
-        reader
+        let n = reader
             .take((fragment_len & 0x7FFFFFFF) as u64)
             .read_to_end(&mut buf)
             .await?;
+        if n != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
 
         // Check if last fragment
         if fragment_len & 0x80000000 != 0 {
-- 
2.43.0


From 028d5f227ba7fd2d3317b4bf19d7aea6cdafb9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 18/48] fix: answer RPC calls with bad arguments instead of
 hanging up

---
 vxi11/src/common/onc_rpc/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index f60cc42..3905ba8 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -134,7 +134,10 @@ pub(crate) trait RpcService {
                         RpcError::ProcUnavail => xdr::AcceptStat::ProcUnavail,
                         RpcError::GarbageArgs => xdr::AcceptStat::GarbageArgs,
                         RpcError::SystemErr => xdr::AcceptStat::SystemErr,
-                        RpcError::Io(err) => return Err(err),
+                        RpcError::Io(err) => {
+                            log::debug!("Failed to deserialize arguments: {}", err);
+                            xdr::AcceptStat::GarbageArgs
+                        }
                         RpcError::RpcMissmatch(_) => unreachable!(),
                         RpcError::AuthError(_) => unreachable!(),
                         RpcError::Portmap => unreachable!(),
-- 
2.43.0


From 86f3cec843fb5fbca19721cce75b1e8683c1ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 19/48] fix: keep serving UDP after a bad RPC message

---
 vxi11/src/common/onc_rpc/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 3905ba8..5af069e 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -94,9 +94,17 @@ pub(crate) trait RpcService {
             let mut buf = vec![0; 1500];
             let (n, peer) = socket.recv_from(&mut buf).await?;
 
-            let reply = self.clone().handle_message(buf[..n].to_vec()).await?;
+            let reply = match self.clone().handle_message(buf[..n].to_vec()).await {
+                Ok(reply) => reply,
+                Err(err) => {
+                    log::debug!("Bad message from {}: {}", peer, err);
+                    continue;
+                }
+            };
 
-            socket.send_to(&reply, peer).await?;
+            if let Err(err) = socket.send_to(&reply, peer).await {
+                log::debug!("Failed to reply to {}: {}", peer, err);
+            }
         }
     }
 
-- 
2.43.0


From 1d4d156c86833697f4b0f16690b7ded216544fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 20/48] fix: deny unknown RPC authentication flavours instead
 of hanging up

---
 vxi11/src/common/onc_rpc/xdr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index 761fa91..7fc50f1 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -303,6 +303,7 @@ pub(crate) enum AuthFlavour {
     None,
     Sys,
     Short,
+    Other(u32),
 }
 
 impl Default for AuthFlavour {
@@ -321,7 +322,7 @@ impl XdrDecode for AuthFlavour {
             0 => Self::None,
             1 => Self::Sys,
             2 => Self::Short,
-            _ => return Err(ErrorKind::Other.into()),
+            x => Self::Other(x),
         };
         Ok(())
     }
@@ -336,6 +337,7 @@ impl XdrEncode for AuthFlavour {
             AuthFlavour::None => 0,
             AuthFlavour::Sys => 1,
             AuthFlavour::Short => 2,
+            AuthFlavour::Other(x) => *x,
         })
     }
 }
-- 
2.43.0


From 39b36c66092217dc487df7498cbd2a5ccfe98ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 21/48] fix: encode indirect portmapper calls as opaque data

---
 vxi11/src/client/portmapper.rs     | 4 ++--
 vxi11/src/common/portmapper/xdr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 8297625..5abfdc5 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -87,11 +87,11 @@ impl PortMapperClient {
             prog,
             vers,
             proc,
-            args: args_cursor.into_inner(),
+            args: Opaque(args_cursor.into_inner()),
         };
         let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
         let mut ret: RET = Default::default();
-        ret.read_xdr(&mut io::Cursor::new(res.res))?;
+        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
         Ok(ret)
     }
 }
diff --git a/vxi11/src/common/portmapper/xdr.rs b/vxi11/src/common/portmapper/xdr.rs
index bb59b8b..9ada69d 100644
--- a/vxi11/src/common/portmapper/xdr.rs
+++ b/vxi11/src/common/portmapper/xdr.rs
@@ -53,7 +53,7 @@ pub(crate) struct Callit {
     pub(crate) prog: u32,
     pub(crate) vers: u32,
     pub(crate) proc: u32,
-    pub(crate) args: Vec<u8>,
+    pub(crate) args: Opaque,
 }
 
 impl XdrEncode for Callit {
@@ -83,7 +83,7 @@ impl XdrDecode for Callit {
 #[derive(Debug, Default, Clone)]
 pub(crate) struct CallResult {
     pub(crate) port: u32,
-    pub(crate) res: Vec<u8>,
+    pub(crate) res: Opaque,
 }
 
 impl XdrEncode for CallResult {
-- 
2.43.0


From 7c5d695c24560dff169e2a82697a923b255f21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 22/48] fix: match RPC replies to calls

---
 vxi11/src/common/onc_rpc/mod.rs | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 5af069e..dce7a92 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -234,13 +234,20 @@ impl UdpRpcClient {
         self.socket.send(&args_cursor.into_inner()).await?;
 
         // Read response
-        let mut buf = vec![0; 1024];
-        self.socket.recv(&mut buf).await?;
-        let mut ret_cursor = Cursor::new(buf);
-
-        // Deserialize and parse response
         let mut reply = xdr::RpcMessage::default();
         let mut ret: RET = Default::default();
+        let mut ret_cursor = loop {
+            let mut buf = vec![0; 1024];
+            let n = self.socket.recv(&mut buf).await?;
+            buf.truncate(n);
+
+            // Ignore anything which isn't for this call (e.g. late replies to previous calls)
+            if buf.get(..4) == Some(&self.xid.to_be_bytes()[..]) {
+                break Cursor::new(buf);
+            }
+        };
+
+        // Deserialize and parse response
         reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
@@ -273,9 +280,7 @@ impl UdpRpcClient {
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(RpcError::Io(ErrorKind::InvalidData.into())),
         }
     }
 
@@ -351,12 +356,18 @@ where
         write_record(&mut self.io, args_cursor.into_inner()).await?;
 
         // Read response
-        let fragment = read_record(&mut self.io, 1024 * 1024).await?;
-        let mut ret_cursor = Cursor::new(fragment);
-
-        // Deserialize and parse response
         let mut reply = xdr::RpcMessage::default();
         let mut ret: RET = Default::default();
+        let mut ret_cursor = loop {
+            let fragment = read_record(&mut self.io, 1024 * 1024).await?;
+
+            // Ignore anything which isn't for this call (e.g. late replies to previous calls)
+            if fragment.get(..4) == Some(&self.xid.to_be_bytes()[..]) {
+                break Cursor::new(fragment);
+            }
+        };
+
+        // Deserialize and parse response
         reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
@@ -389,9 +400,7 @@ where
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(RpcError::Io(ErrorKind::InvalidData.into())),
         }
     }
 
-- 
2.43.0


From a36964bbaf6d0a797e532596cf44b813cb8c8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 23/48] fix: refuse a second asynchronous channel for a HiSLIP
 session

---
 hislip/src/server/session/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index afba926..197dd7a 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -65,7 +65,7 @@ impl SharedSession {
         // !matches!(self.state, SessionState::Handshake) // Just looks weird
         match self.state {
             SessionState::Handshake => false,
-            _ => false,
+            _ => true,
         }
     }
 
-- 
2.43.0


From dc07f724261c9738997f7f0d9adff852668f06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 24/48] fix: do not accept a truncated HiSLIP message

---
 hislip/src/common/messages.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 960c427..e4fbe35 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -76,7 +76,9 @@ impl Message {
                     "Out of memory".to_string(),
                 )));
             }
-            reader.take(len).read_to_end(&mut payload).await?;
+            if reader.take(len).read_to_end(&mut payload).await? as u64 != len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                 Error::NonFatal(
                     NonFatalErrorCode::UnrecognizedMessageType,
-- 
2.43.0


From 66e978fdc9c32fc3584f68d3be392a48505342a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 25/48] fix: skip the payload of a HiSLIP message that is too
 large

---
 hislip/src/common/messages.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index e4fbe35..0923088 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -64,6 +64,10 @@ impl Message {
         let message_parameter = BigEndian::read_u32(&buf[4..8]);
 
         if len > maxlen {
+            // Skip the payload to stay in step with the client
+            if futures::io::copy(reader.take(len), &mut futures::io::sink()).await? != len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             Ok(Err(Error::NonFatal(
                 NonFatalErrorCode::MessageTooLarge,
                 "Message payload too large".to_string(),
-- 
2.43.0


From f80ee7b8dd45556185980c891b5b646b3a317593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 26/48] fix: answer a malformed AsyncEndTLS instead of
 panicking

---
 hislip/src/server/session/asynchronous.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 3b23d4e..6789f4d 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -425,6 +425,12 @@ where
                             payload,
                         } if protocol >= PROTOCOL_2_0 => {
                             // Only supported >= 2.0
+                            if payload.len() != 4 {
+                                send_fatal!(peer=peer.to_string(), session_id=self.id;
+                                    &mut wr, FatalErrorCode::PoorlyFormattedMessageHeader,
+                                    "Expected 4 bytes in AsyncEndTLS payload"
+                                )
+                            }
 
                             let _control = RmtDeliveredControl(control_code);
                             let message_id_sent = message_parameter;
-- 
2.43.0


From 74200c53a904a47428a917e0b910d45745168600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 27/48] fix: do not abort on a HiSLIP message that cannot be
 allocated

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 0923088..7dc9cf6 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -73,7 +73,7 @@ impl Message {
                 "Message payload too large".to_string(),
             )))
         } else {
-            let mut payload = Vec::with_capacity(len as usize);
+            let mut payload = Vec::new();
             if payload.try_reserve_exact(len as usize).is_err() {
                 return Ok(Err(Error::Fatal(
                     FatalErrorCode::UnidentifiedError,
-- 
2.43.0


From ebd9d3d4c44b4fbb209dc80ea86f0931e268407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 28/48] fix: do not panic on a HiSLIP client that announces a
 message limit of 0

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index a368cae..f88ecd2 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -244,7 +244,7 @@ where
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
-                                                .chunks(shared.max_message_size as usize)
+                                                .chunks(shared.max_message_size.max(1) as usize)
                                                 .peekable();
                                             drop(shared);
 
-- 
2.43.0


From 94bc75893cd853176559d4d2df7e7d9d6f4a2d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 29/48] fix: forget a short-circuited *IDN? query

---
 hislip/src/server/session/synchronous.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index f88ecd2..3df6242 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -234,6 +234,7 @@ where
                                         let data = if buffer.eq_ignore_ascii_case(b"*idn?")
                                             && self.config.short_idn.is_some()
                                         {
+                                            buffer.clear();
                                             self.config.short_idn.clone()
                                         } else {
                                             let data = dev.execute(&buffer);
-- 
2.43.0


From 77a7d9787f2d57f29dd98e8fd3bbd370f86733fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 30/48] fix: do not hold a spin lock while a HiSLIP session
 waits for a lock

---
 hislip/src/server/session/asynchronous.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 6789f4d..22e13c0 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -10,7 +10,7 @@ use byteorder::{ByteOrder, NetworkEndian};
 use futures::future::Either;
 use futures::lock::Mutex;
 use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
-use lxi_device::lock::{LockHandle, SharedLockError, SharedLockMode, SpinMutex};
+use lxi_device::lock::{LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex};
 use lxi_device::{Device, DeviceError};
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
@@ -147,8 +147,8 @@ where
                                 // Release
                                 let message_id = message_parameter;
                                 log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Release async lock");
-                                let mut handle = self.handle.lock();
-                                let control = match handle.try_release() {
+                                let released = self.handle.lock().try_release();
+                                let control = match released {
                                     Ok(SharedLockMode::Exclusive) => {
                                         ReleaseLockControl::SuccessExclusive
                                     }
@@ -174,7 +174,7 @@ where
 
                                         log::debug!(peer=peer.to_string(), session_id=self.id, timeout=timeout; "Async lock: {:?}", lockstr);
                                         // Try to acquire lock
-                                        let mut handle = self.handle.lock();
+                                        let handle = RemoteLockHandle::new(self.handle.clone());
                                         let res = if timeout == 0 {
                                             // Try to lock immediately
                                             handle.try_acquire(lockstr.as_bytes())
-- 
2.43.0


From 4962ed82c04ebec5ee0f05314f4d8ce50c7e55ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 31/48] fix: do not lose a device clear while sending a
 response

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 3df6242..7385754 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -251,7 +251,7 @@ where
 
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
-                                                if self.clear.try_recv().is_ok() {
+                                                if !self.clear.is_empty() {
                                                     break;
                                                 }
 
-- 
2.43.0


From e227909afe26ec86da79bacfd627247c6663567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 32/48] fix: a further status change does not end a HiSLIP
 session

---
 hislip/src/server/session/asynchronous.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 22e13c0..f97704a 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -90,7 +90,9 @@ where
                                 .write_to(&mut wr)
                                 .await?
                         }
-                        _ => {
+                        // Wait for the client to query status before sending the next one
+                        Some(_) => {}
+                        None => {
                             send_fatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut wr, FatalErrorCode::UnidentifiedError,
                                 "Server shutdown",
-- 
2.43.0


From 1e8988d560f581a860c70921a664009f2e833eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 33/48] fix: do not hold a spin lock while a HiSLIP session
 waits for the device

---
 hislip/src/server/session/asynchronous.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index f97704a..be81638 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -219,7 +219,7 @@ where
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
                             let mut shared = self.shared.lock().await;
-                            let handle = self.handle.lock();
+                            let handle = RemoteLockHandle::new(self.handle.clone());
                             let res = match request {
                                 0 => {
                                     // Disable remote
@@ -268,7 +268,6 @@ where
                                 _ => Err(DeviceError::NotSupported),
                             };
                             drop(shared);
-                            drop(handle);
 
                             match res {
                                 Ok(_) => {
@@ -353,7 +352,7 @@ where
 
                             let stb = {
                                 let shared = self.shared.lock().await;
-                                let handle = self.handle.lock();
+                                let handle = RemoteLockHandle::new(self.handle.clone());
                                 let mut dev = handle.inner_lock().await;
 
                                 // Calculate MAV bit
-- 
2.43.0


From d6c90c042791d264626304f6012de8cdb680108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 34/48] fix: remote/local request 3 goes to remote

---
 hislip/src/server/session/asynchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index be81638..157a836 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -244,7 +244,7 @@ where
                                     //Enable remote and go to remote
                                     shared.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
-                                    dev.set_remote(false)
+                                    dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-- 
2.43.0


From e710b2630a7682e06290d8cea0f31e7410d49630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 35/48] fix: HiSLIP remote/local and status requests do not
 deadlock with a message

---
 hislip/src/server/session/asynchronous.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 157a836..6c084f1 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -218,44 +218,43 @@ where
                             ..
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
-                            let mut shared = self.shared.lock().await;
                             let handle = RemoteLockHandle::new(self.handle.clone());
                             let res = match request {
                                 0 => {
                                     // Disable remote
-                                    shared.enable_remote = false;
+                                    self.shared.lock().await.enable_remote = false;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 1 => {
                                     // Enable remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     Ok(())
                                 }
                                 2 => {
                                     // Disable remote and go to local
-                                    shared.enable_remote = false;
+                                    self.shared.lock().await.enable_remote = false;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 3 => {
                                     //Enable remote and go to remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     Ok(())
                                 }
                                 5 => {
                                     // Enable remote, got to remote, and set local lockout
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     dev.set_remote(true)
@@ -267,7 +266,6 @@ where
                                 }
                                 _ => Err(DeviceError::NotSupported),
                             };
-                            drop(shared);
 
                             match res {
                                 Ok(_) => {
@@ -351,9 +349,10 @@ where
                             let _control = RmtDeliveredControl(control_code);
 
                             let stb = {
-                                let shared = self.shared.lock().await;
+                                // Device before session, same order as the synchronous channel
                                 let handle = RemoteLockHandle::new(self.handle.clone());
                                 let mut dev = handle.inner_lock().await;
+                                let shared = self.shared.lock().await;
 
                                 // Calculate MAV bit
                                 let sent = shared.sent_message_id;
-- 
2.43.0


From 784bf91e0e1e1c67bd07cd0fb4b4c0ca958ba9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 36/48] fix: encode vendor specific HiSLIP message types with
 the high bit set

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 7dc9cf6..7549dbe 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -259,7 +259,7 @@ impl MessageType {
             MessageType::AuthenticationStart => 36,
             MessageType::AuthenticationExchange => 37,
             MessageType::AuthenticationResult => 38,
-            MessageType::VendorSpecific(x) => x & 0x7F,
+            MessageType::VendorSpecific(x) => x | 0x80,
         }
     }
 
-- 
2.43.0


From 055098a202a670270ef57e869715ae6fe4835763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:27 +0000
Subject: [PATCH 37/48] fix: do not keep the device while sending a HiSLIP
 response

---
 hislip/src/server/session/synchronous.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 7385754..4b05c50 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -174,6 +174,7 @@ where
                             message_type: MessageType::VendorSpecific(code),
                             ..
                         } => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream, NonFatalErrorCode::UnrecognizedVendorDefinedMessage,
                                 "Unrecognized Vendor Defined Message ({})", code
@@ -220,6 +221,7 @@ where
                                     shared.read_message_id = message_id;
 
                                     if buffer.try_reserve_exact(data.len()).is_err() {
+                                        drop(dev);
                                         send_fatal!(peer=peer.to_string(), session_id=self.id;
                                             &mut stream,
                                             FatalErrorCode::UnidentifiedError,
@@ -242,6 +244,9 @@ where
                                             data
                                         };
 
+                                        // Do not keep other sessions from the device while sending
+                                        drop(dev);
+
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
@@ -278,6 +283,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -306,6 +312,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -319,6 +326,7 @@ where
                             ..
                         } => {
                             // Should've been handled above when AsyncDeviceClear was sent
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -335,6 +343,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Start/end TLS");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -351,6 +360,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Authentication Start/Exchange");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -358,6 +368,7 @@ where
                             )
                         }
                         msg => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -368,6 +379,7 @@ where
                 }
                 // Invalid message
                 Err(err) => {
+                    drop(dev);
                     if err.is_fatal() {
                         Message::from(err).write_to(&mut stream).await?;
                         return Err(io::ErrorKind::Other.into());
-- 
2.43.0


From 3c0457cda690f281c7ab2dfe1fc3a9e0b167eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 38/48] fix: forget vanished status receivers even if no status
 is published

---
 device/src/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/status.rs b/device/src/status.rs
index da56575..7ca0d28 100644
--- a/device/src/status.rs
+++ b/device/src/status.rs
@@ -34,6 +34,8 @@ impl Sender {
 
     pub fn get_new_receiver(&mut self) -> Receiver {
         let mut senders = self.senders.lock();
+        // Forget receivers which are gone
+        senders.retain(|sender| !sender.is_closed());
         let (sender, receiver) = mpsc::channel(1);
         senders.push(sender);
         receiver
-- 
2.43.0


From 46aaae051e1d227490e34a39a77f4f8fdf030650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 39/48] fix: send UDP interrupts to hosts other than the
 loopback one

---
 vxi11/src/server/vxi11/intr_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/intr_client.rs b/vxi11/src/server/vxi11/intr_client.rs
index f153acc..89a5fc8 100644
--- a/vxi11/src/server/vxi11/intr_client.rs
+++ b/vxi11/src/server/vxi11/intr_client.rs
@@ -29,7 +29,7 @@ impl VxiSrqClient {
         udp: bool,
     ) -> io::Result<Self> {
         let client = if udp {
-            let socket = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).await?;
+            let socket = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).await?;
             socket
                 .connect((Ipv4Addr::from(host_addr), host_port))
                 .await?;
-- 
2.43.0


From 0fbab419c26b0cc5beaa25a15d93b7e1d0218f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 40/48] fix: reach portmappers other than the loopback one over
 UDP

---
 vxi11/src/client/portmapper.rs | 37 ++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 5abfdc5..49acb9e 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -1,4 +1,7 @@
-use std::io;
+use std::{
+    io,
+    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
+};
 
 use async_std::net::{TcpStream, ToSocketAddrs, UdpSocket};
 
@@ -33,13 +36,31 @@ impl PortMapperClient {
     }
 
     pub async fn connect_udp(addrs: impl ToSocketAddrs) -> io::Result<Self> {
-        let sock = UdpSocket::bind("127.0.0.1:0").await?;
-        sock.connect(addrs).await?;
-        Ok(Self(RpcClient::Udp(UdpRpcClient::new(
-            PORTMAPPER_PROG,
-            PORTMAPPER_VERS,
-            sock,
-        ))))
+        let mut last_err = None;
+        for addr in addrs.to_socket_addrs().await? {
+            match Self::udp_socket(addr).await {
+                Ok(sock) => {
+                    return Ok(Self(RpcClient::Udp(UdpRpcClient::new(
+                        PORTMAPPER_PROG,
+                        PORTMAPPER_VERS,
+                        sock,
+                    ))))
+                }
+                Err(err) => last_err = Some(err),
+            }
+        }
+        Err(last_err.unwrap_or_else(|| io::ErrorKind::InvalidInput.into()))
+    }
+
+    /// Create a UDP socket which can reach `addr`
+    async fn udp_socket(addr: SocketAddr) -> io::Result<UdpSocket> {
+        let local: IpAddr = match addr {
+            SocketAddr::V4(_) => Ipv4Addr::UNSPECIFIED.into(),
+            SocketAddr::V6(_) => Ipv6Addr::UNSPECIFIED.into(),
+        };
+        let sock = UdpSocket::bind((local, 0)).await?;
+        sock.connect(addr).await?;
+        Ok(sock)
     }
 
     pub async fn register(&mut self, mapping: Mapping) -> Result<(), RpcError> {
-- 
2.43.0


From e7564abb029cfed9c4885bfdb655c7e6fab093ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:53 +0000
Subject: [PATCH 41/48] fix: tell refused and invalid HiSLIP lock requests
 apart

---
 hislip/src/common/messages.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 7549dbe..eae5520 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -449,13 +449,15 @@ impl Display for FeatureBitmap {
 pub(crate) enum RequestLockControl {
     Failure = 0,
     Success = 1,
-    Error = 2,
+    Error = 3,
 }
 
 impl From<SharedLockError> for RequestLockControl {
     fn from(err: SharedLockError) -> Self {
         match err {
-            SharedLockError::Timeout => RequestLockControl::Failure,
+            SharedLockError::Timeout
+            | SharedLockError::LockedByShared
+            | SharedLockError::LockedByExclusive => RequestLockControl::Failure,
             _ => RequestLockControl::Error,
         }
     }
-- 
2.43.0


From 95233db7f6b30f31438deeeca4ce2477e2c52496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:47 +0000
Subject: [PATCH 42/48] fix: stop waiting for a HiSLIP lock when the client has
 gone

---
 hislip/src/server/session/asynchronous.rs | 44 +++++++++++++++++------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 6c084f1..798bc96 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -7,9 +7,13 @@ use async_std::future;
 use async_std::prelude::StreamExt;
 use async_std::sync::Arc;
 use byteorder::{ByteOrder, NetworkEndian};
-use futures::future::Either;
+use futures::future::{pending, Either};
+use futures::io::BufReader;
 use futures::lock::Mutex;
-use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
+use futures::{
+    select_biased, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncWrite,
+    AsyncWriteExt, FutureExt, Stream,
+};
 use lxi_device::lock::{LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex};
 use lxi_device::{Device, DeviceError};
 
@@ -19,6 +23,19 @@ use crate::common::{Protocol, PROTOCOL_2_0};
 
 use super::{ServerConfig, SharedSession};
 
+/// Wait until the client has closed the connection
+///
+/// Does not notice if the client has sent something which is still to be read.
+async fn closed<RD>(reader: &mut RD)
+where
+    RD: AsyncBufRead + Unpin,
+{
+    match reader.fill_buf().await {
+        Ok(buf) if !buf.is_empty() => pending().await,
+        _ => {}
+    }
+}
+
 pub(crate) struct AsyncSession<DEV>
 where
     DEV: Device,
@@ -69,12 +86,13 @@ where
         S: AsyncRead + AsyncWrite + Unpin,
         SRQ: Stream<Item = u8> + Unpin,
     {
-        let (mut rd, mut wr) = stream.split();
+        let (rd, mut wr) = stream.split();
+        let mut rd = BufReader::new(rd);
         let mut srq_bit = false;
 
         loop {
-            let read_msg = Message::read_from(&mut rd, self.config.max_message_size).fuse();
-            pin_mut!(read_msg);
+            let read_msg =
+                Box::pin(Message::read_from(&mut rd, self.config.max_message_size).fuse());
 
             let t = match futures::future::select(read_msg, srq.next()).await {
                 // Message was received
@@ -183,13 +201,19 @@ where
                                         } else {
                                             // Try to acquire lock before timeout
                                             // TODO: Cannot be cancelled by AsyncClearDevice
-                                            future::timeout(
+                                            let acquire = future::timeout(
                                                 Duration::from_millis(timeout as u64),
                                                 handle.async_acquire(lockstr.as_bytes()),
-                                            )
-                                            .await
-                                            .map_err(|_| SharedLockError::Timeout)
-                                            .and_then(|res| res)
+                                            );
+                                            // Give up if nobody is left to use the lock
+                                            select_biased! {
+                                                res = acquire.fuse() => res
+                                                    .map_err(|_| SharedLockError::Timeout)
+                                                    .and_then(|res| res),
+                                                _ = closed(&mut rd).fuse() => {
+                                                    return Err(io::ErrorKind::UnexpectedEof.into())
+                                                }
+                                            }
                                         };
 
                                         //log::debug!(session_id = self.id; "Async lock: {:?}", res);
-- 
2.43.0


From 713a5223f5565c580fe72cb49eff69e1fc4c9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:31 +0000
Subject: [PATCH 43/48] fix: stop waiting for a VXI-11 lock when the client has
 gone

---
 vxi11/src/common/onc_rpc/mod.rs        | 18 ++++++++++++++++--
 vxi11/src/server/vxi11/core_service.rs | 12 ++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index dce7a92..8a5ffac 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -9,7 +9,7 @@ use async_std::net::{TcpStream, UdpSocket};
 use async_trait::async_trait;
 
 use self::record::{read_record, write_record};
-use futures::{AsyncRead, AsyncWrite};
+use futures::{future::pending, select_biased, AsyncRead, AsyncWrite, FutureExt};
 
 mod record;
 mod xdr;
@@ -52,6 +52,16 @@ impl From<Error> for RpcError {
     }
 }
 
+/// Wait until the peer has closed the connection
+///
+/// Does not notice if the peer has sent something which is still to be read.
+async fn closed(stream: &TcpStream) {
+    match stream.peek(&mut [0]).await {
+        Ok(0) | Err(_) => {}
+        Ok(_) => pending().await,
+    }
+}
+
 #[async_trait]
 pub(crate) trait RpcService {
     async fn nullproc(&mut self) -> Result<(), RpcError> {
@@ -66,7 +76,11 @@ pub(crate) trait RpcService {
             // Read message
             let fragment = read_record(&mut stream, 1024 * 1024).await?;
 
-            let reply = self.clone().handle_message(fragment).await?;
+            // Give up waiting (e.g. for a lock) if nobody is left to reply to
+            let reply = select_biased! {
+                reply = self.clone().handle_message(fragment).fuse() => reply?,
+                _ = closed(&stream).fuse() => return Err(ErrorKind::UnexpectedEof.into()),
+            };
 
             write_record(&mut stream, reply).await?;
             //stream.write_all(&reply).await?;
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 51006cb..209d378 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -179,8 +179,10 @@ where
                 // Do not keep others from creating links while waiting for a lock
                 let new_link = self.inner.lock().await.new_link(&parms.device);
                 resp.error = match new_link {
-                    Ok((lid, mut link)) => {
+                    Ok((lid, link)) => {
                         let mut error = xdr::DeviceErrorCode::NoError;
+                        let mut links = self.links.lock().await;
+                        let link = links.entry(lid).or_insert(link);
 
                         // Try to lock
                         if parms.lock_device {
@@ -201,10 +203,10 @@ where
                         if error != xdr::DeviceErrorCode::NoError {
                             // No link without the requested lock
                             self.inner.lock().await.remove_link(lid);
+                            links.remove(&lid);
                         } else {
                             resp.lid = lid.into();
                             log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
-                            self.links.lock().await.insert(lid, link);
                         }
                         error
                     }
@@ -618,9 +620,10 @@ where
 
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
+                let mut links = self.links.lock().await;
                 let resp = xdr::DeviceError {
-                    error: match self.links.lock().await.remove(&parms.0) {
-                        Some(mut link) => {
+                    error: match links.get_mut(&parms.0) {
+                        Some(link) => {
                             // Stop monitoring srq events
                             if let Some(task) = link.srq_handle.take() {
                                 task.cancel().await;
@@ -630,6 +633,7 @@ where
 
                             link.handle.force_release();
                             inner.remove_link(parms.0);
+                            links.remove(&parms.0);
                             xdr::DeviceErrorCode::NoError
                         }
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
-- 
2.43.0


From d62935191c850021f6a12eee2cdb62583877d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 44/48] fix: keep sending VXI-11 service requests after one
 could not be sent

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 209d378..bcee135 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -565,8 +565,8 @@ where
                                                 if let Err(err) =
                                                     client.device_intr_srq(&parms.handle.0).await
                                                 {
+                                                    // The client may still replace the interrupt channel
                                                     log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
-                                                    return Err(err);
                                                 }
                                             } else {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
-- 
2.43.0


From 2d5d368a110f338c2722439e2486714b2b303fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 45/48] fix: do not stop a VXI-11 service request halfway
 through sending it

---
 vxi11/src/server/vxi11/core_service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index bcee135..ceedefb 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -546,6 +546,9 @@ where
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
                         Some(link) => {
+                            // Never stop a task which is sending on the interrupt channel
+                            let _srq = self.srq.lock().await;
+
                             let old = if parms.enable {
                                 let client = self.srq.clone();
                                 let mut inner = self.inner.lock().await;
@@ -624,7 +627,8 @@ where
                 let resp = xdr::DeviceError {
                     error: match links.get_mut(&parms.0) {
                         Some(link) => {
-                            // Stop monitoring srq events
+                            // Stop monitoring srq events, but not in the middle of sending one
+                            let _srq = self.srq.lock().await;
                             if let Some(task) = link.srq_handle.take() {
                                 task.cancel().await;
                             }
-- 
2.43.0


From c08385cd72abf72b44e578550e64540378a07a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 46/48] fix: do not block new HiSLIP sessions while refusing an
 asynchronous channel

---
 hislip/src/server/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index 93f9289..a7a9fde 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -345,16 +345,15 @@ where
                         } => {
                             // Connect to existing session
                             let id = (message_parameter & 0x0000FFFF) as u16;
-                            let session = {
-                                let mut guard = self.inner.lock().await;
-                                if let Some(s) = guard.get_session(id) {
-                                    s
-                                } else {
-                                    send_fatal!(peer=format!("{}", peer), session_id=id;
-                                    &mut stream, FatalErrorCode::InvalidInitialization,
-                                        "Invalid session id"
-                                    );
-                                }
+                            // Do not keep others from creating sessions while sending
+                            let session = self.inner.lock().await.get_session(id);
+                            let session = if let Some(s) = session {
+                                s
+                            } else {
+                                send_fatal!(peer=format!("{}", peer), session_id=id;
+                                &mut stream, FatalErrorCode::InvalidInitialization,
+                                    "Invalid session id"
+                                );
                             };
 
                             let (shared, device) = session.clone();
-- 
2.43.0


From 9c4882e750d2b8da1fdfd6cc3ca937a12a824da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 47/48] fix: do not refuse a HiSLIP session while an identifier
 is left

With all other identifiers in use the one given out last was never found
free again.
---
 hislip/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index a7a9fde..22e33df 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -491,7 +491,6 @@ where
 
         // Check if session id already exists (wrapped around)
         while self.sessions.contains_key(&self.session_id) {
-            self.session_id = self.session_id.wrapping_add(2);
             // Back at beginning, no more ids...
             if self.session_id == origin {
                 return Err(Error::Fatal(
@@ -499,6 +498,7 @@ where
                     "Out of session ids".to_string(),
                 ));
             }
+            self.session_id = self.session_id.wrapping_add(2);
         }
 
         Ok(self.session_id)
-- 
2.43.0


From 18add986d535ae1c39ed16f8e5c544c09ff37579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 48/48] fix: do not clear the device if it was locked by
 another session while waiting for it

---
 hislip/src/server/session/synchronous.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 4b05c50..c51c1b9 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -107,7 +107,10 @@ where
                 }) => {
                     if self.handle.can_lock().is_ok() {
                         let mut dev = self.handle.inner_lock().await;
-                        let _res = dev.clear();
+                        // Someone else may have been granted a lock while waiting for the device
+                        if self.handle.can_lock().is_ok() {
+                            let _res = dev.clear();
+                        }
                     }
 
                     break self
-- 
2.43.0

