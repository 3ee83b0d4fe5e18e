From ca2885a4b8f544489ef0ceeca5d90951891a54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 1/8] fix: send queued responses that follow an internally
 created response

After an internally created response (literal accepted/rejected) was sent,
`Server::next` asked for more input although more responses were queued.
These were not sent until the client sent something.
---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..d7dc4c4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -193,8 +193,9 @@ impl Server {
                 Ok(Some(Event::ResponseSent { handle, response }))
             }
             Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
+                // An internally created response was sent, don't inform the caller but
+                // continue with the next response (if any)
+                self.progress_send()
             }
             Ok(_) => {
                 // No progress yet
-- 
2.43.0


From e300aac2ca3504249017c599a9f43661d7018653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 2/8] fix: do not hang after the peer closed the TLS connection

---
 src/stream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..f50abb7 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -285,6 +285,8 @@ fn decrypt(
                     break;
                 }
                 Err(err) => return Err(DecryptEncryptError::Io(err)),
+                // The peer closed the TLS connection, there won't be any more data.
+                Ok(0) => break,
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
-- 
2.43.0


From ee40850667cc73300462d43754f9e60062c80bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 3/8] fix: send messages of more than 64 KiB over TLS

---
 src/stream.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f50abb7..f97a574 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -300,13 +300,23 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut remaining_bytes = plain_bytes.as_slice();
+
+    loop {
+        if !remaining_bytes.is_empty() {
+            // `rustls` buffers a limited amount of bytes only, so there might be a remainder.
+            let byte_count = tls.writer().write(remaining_bytes)?;
+            remaining_bytes = &remaining_bytes[byte_count..];
+        }
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
+
+        if remaining_bytes.is_empty() {
+            break;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 90682e9099c6cab2e3ee7c045eede0b51f328a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 4/8] fix: deliver data that was received along with the TLS
 handshake

---
 src/stream.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f97a574..9be9fca 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,11 +269,9 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
-    while tls.wants_read() && !read_buffer.is_empty() {
-        let mut encrypted_bytes = read_buffer.reader();
-        tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
-
+    loop {
+        // There might already be decrypted bytes which were received along with the handshake.
+        // We need to take them first because otherwise `rustls` doesn't want to read.
         loop {
             let mut plain_bytes_chunk = [0; 128];
             match tls.reader().read(&mut plain_bytes_chunk) {
@@ -290,6 +288,14 @@ fn decrypt(
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
+
+        if !tls.wants_read() || read_buffer.is_empty() {
+            break;
+        }
+
+        let mut encrypted_bytes = read_buffer.reader();
+        tls.read_tls(&mut encrypted_bytes)?;
+        tls.process_new_packets()?;
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From abdb68f0afdfcf5c8afaaf8bfa0ad45f8be47a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 5/8] fix: filter capabilities in the responses to AUTHENTICATE
 and IDLE, too

---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..3e18dfa 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,19 +396,23 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let handle = client_to_proxy
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
@@ -444,7 +448,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -453,13 +457,17 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_reject(status).unwrap();
             trace!(role = "p2c", ?handle, "idle_reject");
-- 
2.43.0


From 3c9a095b30e7c123a81579e92046b29702557912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 6/8] fix: end the session instead of panicking when
 AUTHENTICATE or IDLE got out of step

---
 proxy/src/proxy.rs | 48 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e18dfa..241bfdc 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -299,10 +299,13 @@ fn handle_client_event(
         server::Event::AuthenticateDataReceived { authenticate_data } => {
             trace!(role = "c2p", authenticate_data=%format!("{:?}", authenticate_data).red(), "|-->");
 
-            // TODO(#145): Fix unwrap
-            let handle = proxy_to_server
-                .set_authenticate_data(authenticate_data)
-                .unwrap();
+            let handle = match proxy_to_server.set_authenticate_data(authenticate_data) {
+                Ok(handle) => handle,
+                Err(_) => {
+                    error!(role = "c2p", "Unexpected authenticate data");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2s", ?handle, "set_authenticate_data");
         }
         server::Event::IdleCommandReceived { tag } => {
@@ -403,9 +406,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            let handle = client_to_proxy
-                .authenticate_continue(continuation_request)
-                .unwrap();
+            let handle = match client_to_proxy.authenticate_continue(continuation_request) {
+                Ok(handle) => handle,
+                Err(_) => {
+                    error!(role = "s2p", "Unexpected authenticate continuation request");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
         client::Event::AuthenticateStatusReceived { mut status, .. } => {
@@ -413,8 +420,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.authenticate_finish(status).unwrap();
+            let handle = match client_to_proxy.authenticate_finish(status) {
+                Ok(handle) => handle,
+                Err(_) => {
+                    error!(role = "s2p", "Unexpected authenticate status");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "authenticate_finish");
         }
         client::Event::DataReceived { mut data } => {
@@ -459,8 +471,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
+            let handle = match client_to_proxy.idle_accept(continuation_request) {
+                Ok(handle) => handle,
+                Err(_) => {
+                    error!(role = "s2p", "Unexpected idle continuation request");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "idle_accept");
         }
         client::Event::IdleRejected { handle, mut status } => {
@@ -468,8 +485,13 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_reject(status).unwrap();
+            let handle = match client_to_proxy.idle_reject(status) {
+                Ok(handle) => handle,
+                Err(_) => {
+                    error!(role = "s2p", "Unexpected idle status");
+                    return ControlFlow::Abort;
+                }
+            };
             trace!(role = "p2c", ?handle, "idle_reject");
         }
         client::Event::IdleDoneSent { handle } => {
-- 
2.43.0


From 67a5b524e349cc7491bd56f3f24ec133c8bc7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 7/8] fix: report an invalid server name instead of panicking

---
 proxy/src/proxy.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 241bfdc..69c8649 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -1,4 +1,4 @@
-use std::{net::SocketAddr, sync::Arc};
+use std::{io, net::SocketAddr, sync::Arc};
 
 use colored::Colorize;
 use imap_next::{
@@ -156,7 +156,8 @@ impl Proxy<ClientAcceptedState> {
                 };
 
                 let connector = TlsConnector::from(Arc::new(config));
-                let dnsname = ServerName::try_from(host.clone()).unwrap();
+                let dnsname = ServerName::try_from(host.clone())
+                    .map_err(|error| io::Error::new(io::ErrorKind::InvalidInput, error))?;
 
                 info!(?server_addr_port, "Starting TLS with server");
                 Stream::tls(connector.connect(dnsname, stream_to_server).await?.into())
-- 
2.43.0


From f4a45696f6744d1eaa91eb101cea8e7583efaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 8/8] fix: do not wait for a client's TLS handshake while
 accepting clients

---
 proxy/src/main.rs  |  1 +
 proxy/src/proxy.rs | 45 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/proxy/src/main.rs b/proxy/src/main.rs
index 24624b4..9976ca1 100644
--- a/proxy/src/main.rs
+++ b/proxy/src/main.rs
@@ -89,6 +89,7 @@ async fn handle_service(service: Service) {
 
 #[instrument(name = "client", skip_all, fields(addr = %proxy.client_addr()))]
 async fn handle_client(proxy: Proxy<ClientAcceptedState>) -> Result<()> {
+    let proxy = proxy.secure_client().await?;
     let proxy = proxy.connect_to_server().await?;
     proxy.start_conversation().await;
     Ok(())
diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 69c8649..fbf0c87 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -80,6 +80,33 @@ impl Proxy<BoundState> {
         let (client_to_proxy, client_addr) = self.state.listener.accept().await?;
         info!(?client_addr, "Accepted client");
 
+        Ok(Proxy {
+            service: self.service.clone(),
+            state: ClientAcceptedState {
+                client_addr,
+                client_to_proxy,
+            },
+        })
+    }
+}
+
+pub struct ClientAcceptedState {
+    client_addr: SocketAddr,
+    client_to_proxy: TcpStream,
+}
+
+impl State for ClientAcceptedState {}
+
+impl Proxy<ClientAcceptedState> {
+    pub fn client_addr(&self) -> SocketAddr {
+        self.state.client_addr
+    }
+
+    // Note: This must not happen while accepting clients. Otherwise, a client that does not
+    //       complete the TLS handshake would prevent all other clients from being accepted.
+    pub async fn secure_client(self) -> Result<Proxy<ClientSecuredState>, ProxyError> {
+        let client_to_proxy = self.state.client_to_proxy;
+
         let client_to_proxy = match &self.service.bind {
             Bind::Tls { identity, .. } => {
                 let config = {
@@ -116,27 +143,19 @@ impl Proxy<BoundState> {
         };
 
         Ok(Proxy {
-            service: self.service.clone(),
-            state: ClientAcceptedState {
-                client_addr,
-                client_to_proxy,
-            },
+            service: self.service,
+            state: ClientSecuredState { client_to_proxy },
         })
     }
 }
 
-pub struct ClientAcceptedState {
-    client_addr: SocketAddr,
+pub struct ClientSecuredState {
     client_to_proxy: Stream,
 }
 
-impl State for ClientAcceptedState {}
-
-impl Proxy<ClientAcceptedState> {
-    pub fn client_addr(&self) -> SocketAddr {
-        self.state.client_addr
-    }
+impl State for ClientSecuredState {}
 
+impl Proxy<ClientSecuredState> {
     pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
         let server_addr_port = self.service.connect.addr_port();
         info!(%server_addr_port, "Connecting to server");
-- 
2.43.0

