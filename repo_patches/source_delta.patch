From 651f40ac06eb3788f55d9524b586167ebd671b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 01/36] fix: retransmit a packet as soon as it is reported
 missing

SendQ::nack gave the packet a new sequence number and restarted its timer
but left it marked as sent, so a NACK postponed the retransmission instead
of causing it.
---
 src/arq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..bf99009 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -744,8 +744,9 @@ impl SendQ {
                 );
                 item.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
+                // resend with the next flush
+                item.1 = false;
                 item.2 = tick;
-                item.3 += 1;
                 item.4.push(item.0.sequence_number);
             }
         }
-- 
2.43.0


From ad756f3b21eeb612714f0b6fd13a09e1c89642ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 02/36] fix: send on a connection that closes meanwhile returns
 ConnectionClosed

The worker that send hands its datagrams to ends when the connection is
closed; a send that was already past its own check then panicked.
---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..7893395 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -824,7 +824,7 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .map_err(|_| RaknetError::ConnectionClosed)?;
         }
         Ok(())
     }
-- 
2.43.0


From 02d25615d47ec3a7be1cd51a36d3aac630b3d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:51 +0000
Subject: [PATCH 03/36] fix: a disconnect for a session that is already ending
 must not kill the listener

The session's receiver may have finished, for instance after a Disconnect
frame; forwarding the raw notification then failed and panicked.
---
 src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4ac5256..09ef273 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -450,7 +450,8 @@ impl RaknetListener {
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
+                            // fails if the session is ending already
+                            let _ = sessions[&addr].1.send(buf[..size].to_vec()).await;
                             sessions.remove(&addr);
                         }
                     }
-- 
2.43.0


From 62465be0cc7c814ca87c1f30980ff3d29c4ecc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 04/36] fix: the drop watcher must not consume its own start
 notification

The watcher announced its start through the notifier that it then waited
on. If it ran before its creator waited, it took that notification for the
drop: the new socket or listener was closed at once and its creator waited
forever. Notify stores a permit, so no announcement is needed.
---
 src/server.rs | 4 ----
 src/socket.rs | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 09ef273..ff2f887 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -606,8 +606,6 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -619,8 +617,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index 7893395..965859e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -920,8 +920,6 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -933,8 +931,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From 61c97030d306c0ff47d98b11dce0579594fef50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 05/36] fix: repeat the second reply if the client asks again

If reply 2 was lost, the client's next request 2 found its session in
place and was answered AlreadyConnected for ever, so a single lost datagram
made connect spin without end. A request with the session's own guid is
a repetition and gets the same reply again.
---
 src/server.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index ff2f887..d010ad0 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,7 +13,8 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-type SessionSender = (i64, Sender<Vec<u8>>);
+// last activity, channel to the session, guid of the client
+type SessionSender = (i64, Sender<Vec<u8>>, u64);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -399,7 +400,19 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
-                        if sessions.contains_key(&addr) {
+                        if let Some(session) = sessions.get(&addr) {
+                            // the reply to this client's earlier request was lost or is late
+                            if session.2 == req.guid {
+                                match socket.send_to(&reply, addr).await {
+                                    Ok(_) => {}
+                                    Err(e) => {
+                                        raknet_log_error!("udp socket send_to error : {}", e);
+                                    }
+                                };
+
+                                continue;
+                            }
+
                             let packet = write_packet_already_connected(&AlreadyConnected {
                                 magic: true,
                                 guid,
@@ -444,7 +457,7 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender));
+                        sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid));
                         let _ = connection_sender.send(s).await;
                     }
                     PacketID::Disconnect => {
-- 
2.43.0


From 9fe0ed9d302a2c47842daeba5e73855e98f5da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 06/36] fix: connect fails if the server goes away during the
 handshake

connect repeated request 2 for ever, and once it had reply 2 waited for the
acceptance even after the connection had been closed or timed out.
---
 src/socket.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 965859e..33f73cd 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -21,6 +21,9 @@ use tokio::sync::mpsc::{Receiver, Sender};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
+// a server that answered but does not complete the handshake within this time is gone
+const HANDSHAKE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(30);
+
 /// Raknet socket wrapper with local and remote.
 pub struct RaknetSocket {
     local_addr: SocketAddr,
@@ -277,7 +280,14 @@ impl RaknetSocket {
 
         let buf = write_packet_connection_open_request_2(&packet).unwrap();
 
+        let deadline = tokio::time::Instant::now() + HANDSHAKE_TIMEOUT;
+
         loop {
+            if tokio::time::Instant::now() >= deadline {
+                raknet_log_debug!("wait reply2 give up");
+                return Err(RaknetError::ConnectionClosed);
+            }
+
             match s.send_to(&buf, addr).await {
                 Ok(_) => {}
                 Err(e) => {
@@ -411,7 +421,10 @@ impl RaknetSocket {
         ret.drop_watcher().await;
 
         raknet_log_debug!("wait incomming notify");
-        ret.incomming_notifier.notified().await;
+        tokio::select! {
+            _ = ret.incomming_notifier.notified() => Ok(()),
+            _ = ret.close_notifier.acquire() => Err(RaknetError::ConnectionClosed),
+        }?;
 
         Ok(ret)
     }
-- 
2.43.0


From 118b63852be530ed1f48a7d304f9210e4ec94676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 07/36] fix: ping reports the round-trip time

The pong carried the server's clock instead of echoing the ping's time,
and the latency was the difference of the two clocks.
---
 src/server.rs | 8 ++++----
 src/socket.rs | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index d010ad0..f362b7d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -276,13 +276,13 @@ impl RaknetListener {
 
                 match cur_status {
                     PacketID::UnconnectedPing1 => {
-                        let _ping = match read_packet_ping(&buf[..size]) {
+                        let ping = match read_packet_ping(&buf[..size]) {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
-                            time: cur_timestamp_millis(),
+                            time: ping.time,
                             guid,
                             magic: true,
                             motd,
@@ -302,13 +302,13 @@ impl RaknetListener {
                         continue;
                     }
                     PacketID::UnconnectedPing2 => {
-                        match read_packet_ping(&buf[..size]) {
+                        let ping = match read_packet_ping(&buf[..size]) {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
-                            time: cur_timestamp_millis(),
+                            time: ping.time,
                             guid,
                             magic: true,
                             motd,
diff --git a/src/socket.rs b/src/socket.rs
index 33f73cd..6fbf8ae 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -792,7 +792,8 @@ impl RaknetSocket {
             };
 
             if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
+                // the pong echoes the time of the ping it answers
+                return Ok((cur_timestamp_millis() - p.time, p.motd));
             };
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
-- 
2.43.0


From 52ada04ac03e7b6c4bcfb24800c64500bb8e6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 08/36] fix: ping accepts a MOTD of about 1000 bytes or more

The pong was cut off by a buffer of 1024 bytes and never parsed.
---
 src/socket.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 6fbf8ae..dc71015 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -774,9 +774,9 @@ impl RaknetSocket {
                 }
             };
 
-            let mut buf = [0u8; 1024];
+            let mut buf = [0u8; 2048];
 
-            match match tokio::time::timeout(
+            let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -791,7 +791,7 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
-            if let Ok(p) = read_packet_pong(&buf) {
+            if let Ok(p) = read_packet_pong(&buf[..size]) {
                 // the pong echoes the time of the ping it answers
                 return Ok((cur_timestamp_millis() - p.time, p.motd));
             };
-- 
2.43.0


From eb0c9410a6d21f1548b67dfacca9d82b6edd6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 09/36] fix: a MOTD set after listen takes effect

The listen worker answered pings with the MOTD as it was when listening
began; the documentation tells users to set it afterwards.
---
 src/server.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index f362b7d..e008c77 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -18,7 +18,7 @@ type SessionSender = (i64, Sender<Vec<u8>>, u64);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<std::sync::Mutex<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -51,7 +51,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::Mutex::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -89,7 +89,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::Mutex::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -209,7 +209,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -225,7 +225,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let cur_motd = self.motd.clone();
 
         self.listened = true;
 
@@ -243,7 +243,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -285,7 +284,7 @@ impl RaknetListener {
                             time: ping.time,
                             guid,
                             magic: true,
-                            motd,
+                            motd: cur_motd.lock().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -311,7 +310,7 @@ impl RaknetListener {
                             time: ping.time,
                             guid,
                             magic: true,
-                            motd,
+                            motd: cur_motd.lock().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -536,7 +535,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        *self.motd.lock().unwrap() = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -556,7 +555,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        self.motd.lock().unwrap().clone()
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -604,7 +603,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.lock().unwrap() = motd;
         Ok(())
     }
 
-- 
2.43.0


From 5f077a2d39c75f55c11e5b41c21ae6824d0bfe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 10/36] fix: connections that are not accepted yet must not
 block the listener

The listen worker waited, holding the session table, for room in a queue
of ten accepted connections. An application slow to accept stopped all
traffic of all connections, pings and close.
---
 src/server.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index e008c77..2772d77 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 use std::{net::SocketAddr, sync::Arc};
 use tokio::net::UdpSocket;
 use tokio::sync::mpsc::channel;
+use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
 use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::{Mutex, Notify};
 
@@ -22,8 +23,8 @@ pub struct RaknetListener {
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
-    connection_receiver: Receiver<RaknetSocket>,
-    connection_sender: Sender<RaknetSocket>,
+    connection_receiver: UnboundedReceiver<RaknetSocket>,
+    connection_sender: UnboundedSender<RaknetSocket>,
     sessions: Arc<Mutex<HashMap<SocketAddr, SessionSender>>>,
     close_notifier: Arc<tokio::sync::Semaphore>,
     all_session_closed_notifier: Arc<Notify>,
@@ -48,7 +49,7 @@ impl RaknetListener {
             }
         };
 
-        let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
+        let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();
 
         let ret = Self {
             motd: Arc::new(std::sync::Mutex::new(String::new())),
@@ -86,7 +87,7 @@ impl RaknetListener {
             }
         };
 
-        let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
+        let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();
 
         let ret = Self {
             motd: Arc::new(std::sync::Mutex::new(String::new())),
@@ -457,7 +458,7 @@ impl RaknetListener {
 
                         raknet_log_debug!("accept connection : {}", addr);
                         sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid));
-                        let _ = connection_sender.send(s).await;
+                        let _ = connection_sender.send(s);
                     }
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
-- 
2.43.0


From 62b4dab49ff4f79b1f7b6f77089b6b17a883701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 11/36] fix: an application that does not read must not block
 the connection

Once 100 messages were unread the receiver waited, holding the receive
queue, for the application: no acknowledgements, no retransmissions, no
timeout, and on a server the listen worker with all other connections was
stuck behind it. Received messages now wait in an unbounded queue.
---
 src/socket.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index dc71015..dae0b89 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -17,7 +17,9 @@ use crate::{
     raknet_log_error, raknet_log_info,
 };
 use std::sync::atomic::{AtomicBool, Ordering};
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{
+    unbounded_channel, Receiver, Sender, UnboundedReceiver, UnboundedSender,
+};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
@@ -28,7 +30,7 @@ const HANDSHAKE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(30
 pub struct RaknetSocket {
     local_addr: SocketAddr,
     peer_addr: SocketAddr,
-    user_data_receiver: Arc<Mutex<Receiver<Vec<u8>>>>,
+    user_data_receiver: Arc<Mutex<UnboundedReceiver<Vec<u8>>>>,
     recvq: Arc<Mutex<RecvQ>>,
     sendq: Arc<RwLock<SendQ>>,
     close_notifier: Arc<tokio::sync::Semaphore>,
@@ -53,7 +55,7 @@ impl RaknetSocket {
         collecter: Arc<Mutex<Sender<SocketAddr>>>,
         raknet_version: u8,
     ) -> Self {
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
         let (sender_sender, sender_receiver) = channel::<(Vec<u8>, SocketAddr, bool, u8)>(10);
 
         let ret = RaknetSocket {
@@ -83,7 +85,7 @@ impl RaknetSocket {
         peer_addr: &SocketAddr,
         local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
-        user_data_sender: &Sender<Vec<u8>>,
+        user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
         match PacketID::from(frame.data[0])? {
@@ -146,7 +148,7 @@ impl RaknetSocket {
                 return Ok(false);
             }
             _ => {
-                match user_data_sender.send(frame.data.clone()).await {
+                match user_data_sender.send(frame.data.clone()) {
                     Ok(_) => {}
                     Err(_) => {
                         return Ok(false);
@@ -346,7 +348,7 @@ impl RaknetSocket {
         sendq1.insert(Reliability::ReliableOrdered, &buf)?;
         std::mem::drop(sendq1);
 
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
 
         let (sender, receiver) = channel::<Vec<u8>>(100);
 
@@ -433,7 +435,7 @@ impl RaknetSocket {
         &self,
         s: &Arc<UdpSocket>,
         mut receiver: Receiver<Vec<u8>>,
-        user_data_sender: Sender<Vec<u8>>,
+        user_data_sender: UnboundedSender<Vec<u8>>,
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-- 
2.43.0


From 9fa7af9f96f343e7532017697a835bf72338002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 12/36] fix: truncated packets and invalid strings are errors,
 not panics

---
 src/arq.rs      | 24 ++++++++++++------------
 src/datatype.rs |  6 +++++-
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index bf99009..c5123f8 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -277,8 +277,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -298,32 +298,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..1299fd8 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
@@ -277,7 +281,7 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        String::from_utf8(buf.to_vec()).map_err(|_| RaknetError::ReadPacketBufferError)
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
-- 
2.43.0


From 1e5f6c1ae0e872100cc99f046a97a811f2db5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 13/36] fix: malformed datagrams and messages on a connection
 are ignored

---
 src/socket.rs | 64 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index dae0b89..9b7a358 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -88,7 +88,12 @@ impl RaknetSocket {
         user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
-        match PacketID::from(frame.data[0])? {
+        let id = match frame.data.first() {
+            Some(id) => PacketID::from(*id)?,
+            None => return Ok(true),
+        };
+
+        match id {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
 
@@ -452,7 +457,7 @@ impl RaknetSocket {
                 if connected.is_closed() {
                     let mut recvq = recvq.lock().await;
                     for f in recvq.flush(&peer_addr) {
-                        RaknetSocket::handle(
+                        if let Err(e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
                             &local_addr,
@@ -461,7 +466,9 @@ impl RaknetSocket {
                             &incomming_notify,
                         )
                         .await
-                        .unwrap();
+                        {
+                            raknet_log_debug!("ignore malformed message : {:?}", e);
+                        }
                     }
                     break;
                 }
@@ -477,15 +484,27 @@ impl RaknetSocket {
 
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
+                if buf.is_empty() {
+                    raknet_log_debug!("ignore empty datagram");
+                    continue;
+                }
+
+                if buf[0] == PacketID::Disconnect.to_u8() {
                     connected.close();
                     break;
                 }
 
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("ignore malformed ack : {:?}", e);
+                            continue;
+                        }
+                    };
+
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -500,7 +519,13 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("ignore malformed nack : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut sendq = sendq.write().await;
 
@@ -521,15 +546,23 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("ignore malformed frame set : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        if let Err(e) = recvq.insert(frame) {
+                            raknet_log_debug!("ignore malformed frame : {:?}", e);
+                        }
 
                         for f in recvq.flush(&peer_addr) {
-                            if !RaknetSocket::handle(
+                            match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
                                 &local_addr,
@@ -538,11 +571,16 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
                             {
-                                raknet_log_info!("handle over");
-                                connected.close();
-                                is_break = true;
+                                Ok(true) => {}
+                                Ok(false) => {
+                                    raknet_log_info!("handle over");
+                                    connected.close();
+                                    is_break = true;
+                                }
+                                Err(e) => {
+                                    raknet_log_debug!("ignore malformed message : {:?}", e);
+                                }
                             };
                         }
 
-- 
2.43.0


From b998ed1c0647699857d963273401e133d24265ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 14/36] fix: a fragment of a message of no fragments is ignored

---
 src/fragment.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fragment.rs b/src/fragment.rs
index 64baea3..02fb6bf 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -68,6 +68,11 @@ impl FragmentQ {
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) {
+        // a message of no fragments has none
+        if frame.compound_size == 0 {
+            return;
+        }
+
         if self.fragments.contains_key(&frame.compound_id) {
             self.fragments
                 .get_mut(&frame.compound_id)
-- 
2.43.0


From 96c6c9b97b9c5cba5b8142e939e7fd04b0192035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 15/36] fix: huge ranges in an ACK or NACK must not stall the
 connection

---
 src/arq.rs    | 33 ++++++++++++++++++++-------------
 src/socket.rs | 21 ++++++---------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index c5123f8..77403d6 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -731,10 +731,10 @@ impl SendQ {
         self.rto
     }
 
-    pub fn nack(&mut self, sequence: u32, tick: i64) {
+    pub fn nack(&mut self, first: u32, last: u32, tick: i64) {
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
-            if item.1 && item.0.sequence_number == sequence {
+            if item.1 && (first..=last).contains(&item.0.sequence_number) {
                 raknet_log_debug!(
                     "packet {}-{}-{} nack {} times",
                     item.0.sequence_number,
@@ -753,24 +753,31 @@ impl SendQ {
     }
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
-        if sequence != 0 && sequence != self.ack_sequence_number + 1 {
-            for i in self.ack_sequence_number + 1..sequence {
-                self.nack(i, tick);
-            }
+        self.ack_range(sequence, sequence, tick);
+    }
+
+    pub fn ack_range(&mut self, first: u32, last: u32, tick: i64) {
+        // numbers that have not been sent cannot be acknowledged
+        if first > last || first >= self.sequence_number {
+            return;
+        }
+        let last = last.min(self.sequence_number - 1);
+
+        if first > self.ack_sequence_number + 1 {
+            self.nack(self.ack_sequence_number + 1, first - 1, tick);
         }
 
-        self.ack_sequence_number = sequence;
+        self.ack_sequence_number = last;
 
         let mut rtts = vec![];
 
-        for i in 0..self.sent_packet.len() {
-            let item = &mut self.sent_packet[i];
-            if item.0.sequence_number == sequence || item.4.contains(&sequence) {
+        self.sent_packet.retain(|item| {
+            let acked = item.4.iter().any(|i| (first..=last).contains(i));
+            if acked {
                 rtts.push(tick - item.2);
-                self.sent_packet.remove(i);
-                break;
             }
-        }
+            !acked
+        });
 
         for i in rtts {
             self.update_rto(i);
diff --git a/src/socket.rs b/src/socket.rs
index 9b7a358..80ceead 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -505,13 +505,11 @@ impl RaknetSocket {
                     };
 
                     let mut sendq = sendq.write().await;
-                    for i in 0..ack.record_count {
-                        if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
-                            sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
+                    for (first, last) in ack.sequences {
+                        if first == last {
+                            sendq.ack(first, cur_timestamp_millis());
                         } else {
-                            for i in ack.sequences[i as usize].0..ack.sequences[i as usize].1 + 1 {
-                                sendq.ack(i, cur_timestamp_millis());
-                            }
+                            sendq.ack_range(first, last, cur_timestamp_millis());
                         }
                     }
                     continue;
@@ -529,15 +527,8 @@ impl RaknetSocket {
 
                     let mut sendq = sendq.write().await;
 
-                    for i in 0..nack.record_count {
-                        if nack.sequences[i as usize].0 == nack.sequences[i as usize].1 {
-                            sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
-                        } else {
-                            for i in nack.sequences[i as usize].0..nack.sequences[i as usize].1 + 1
-                            {
-                                sendq.nack(i, cur_timestamp_millis());
-                            }
-                        }
+                    for (first, last) in nack.sequences {
+                        sendq.nack(first, last, cur_timestamp_millis());
                     }
                     continue;
                 }
-- 
2.43.0


From 56524adbfcd6b9d13a96314efc0303deab01cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:36 +0000
Subject: [PATCH 16/36] fix: an MTU too small for a packet or too large for a
 datagram must not break a connection

---
 src/server.rs | 10 ++++++++--
 src/socket.rs | 10 ++++++++--
 src/utils.rs  |  4 ++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2772d77..dbfca81 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -385,11 +385,17 @@ impl RaknetListener {
                             Err(_) => continue,
                         };
 
+                        if req.mtu < RAKNET_MIN_MTU {
+                            raknet_log_debug!("unusable mtu : {}", req.mtu);
+                            continue;
+                        }
+                        let mtu = req.mtu.min(RAKNET_MAX_MTU);
+
                         let packet = crate::packet::OpenConnectionReply2 {
                             magic: true,
                             guid,
                             address: addr,
-                            mtu: req.mtu,
+                            mtu,
                             encryption_enabled: 0x00,
                         };
 
@@ -450,7 +456,7 @@ impl RaknetListener {
                             &addr,
                             &socket,
                             receiver,
-                            req.mtu,
+                            mtu,
                             collect_sender.clone(),
                             raknet_version,
                         )
diff --git a/src/socket.rs b/src/socket.rs
index 80ceead..1ff790f 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -278,10 +278,16 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::PacketParseError),
         };
 
+        if reply1.mtu_size < RAKNET_MIN_MTU {
+            raknet_log_debug!("unusable mtu : {}", reply1.mtu_size);
+            return Err(RaknetError::PacketParseError);
+        }
+        let mtu = reply1.mtu_size.min(RAKNET_MAX_MTU);
+
         let packet = OpenConnectionRequest2 {
             magic: true,
             address: remote_addr,
-            mtu: reply1.mtu_size,
+            mtu,
             guid,
         };
 
@@ -339,7 +345,7 @@ impl RaknetSocket {
             break;
         }
 
-        let sendq = Arc::new(RwLock::new(SendQ::new(reply1.mtu_size)));
+        let sendq = Arc::new(RwLock::new(SendQ::new(mtu)));
 
         let packet = ConnectionRequest {
             guid,
diff --git a/src/utils.rs b/src/utils.rs
index 07d349e..b62903e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,10 @@ pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
 pub const RAKNET_CLIENT_MTU: u16 = 1400;
 
+// the smallest and the largest MTU of a connection
+pub const RAKNET_MIN_MTU: u16 = 400;
+pub const RAKNET_MAX_MTU: u16 = 1500;
+
 pub const RECEIVE_TIMEOUT: i64 = 60000;
 
 pub enum Endian {
-- 
2.43.0


From abe8a035189b5ed233d08f06719c56c0ecfd3557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 17/36] fix: connect parses the reply it received, not its own
 request

---
 src/socket.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 1ff790f..7196ea8 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -258,10 +258,11 @@ impl RaknetSocket {
 
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
-                        Ok(p) => p,
-                        Err(_) => return Err(RaknetError::NotSupportVersion),
-                    };
+                    let _packet =
+                        match read_packet_incompatible_protocol_version(&reply1_buf[..size]) {
+                            Ok(p) => p,
+                            Err(_) => return Err(RaknetError::NotSupportVersion),
+                        };
 
                     return Err(RaknetError::NotSupportVersion);
                 } else {
-- 
2.43.0


From ae697d423409cc0ee62e9aab78447ff543e70d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:00 +0000
Subject: [PATCH 18/36] fix: offline packets without the magic are not requests

---
 src/server.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index dbfca81..d7b62b6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -277,8 +277,8 @@ impl RaknetListener {
                 match cur_status {
                     PacketID::UnconnectedPing1 => {
                         let ping = match read_packet_ping(&buf[..size]) {
-                            Ok(p) => p,
-                            Err(_) => continue,
+                            Ok(p) if p.magic => p,
+                            _ => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
@@ -303,8 +303,8 @@ impl RaknetListener {
                     }
                     PacketID::UnconnectedPing2 => {
                         let ping = match read_packet_ping(&buf[..size]) {
-                            Ok(p) => p,
-                            Err(_) => continue,
+                            Ok(p) if p.magic => p,
+                            _ => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
@@ -329,8 +329,8 @@ impl RaknetListener {
                     }
                     PacketID::OpenConnectionRequest1 => {
                         let req = match read_packet_connection_open_request_1(&buf[..size]) {
-                            Ok(p) => p,
-                            Err(_) => continue,
+                            Ok(p) if p.magic => p,
+                            _ => continue,
                         };
 
                         if !RAKNET_PROTOCOL_VERSION_LIST
@@ -381,8 +381,8 @@ impl RaknetListener {
                     }
                     PacketID::OpenConnectionRequest2 => {
                         let req = match read_packet_connection_open_request_2(&buf[..size]) {
-                            Ok(p) => p,
-                            Err(_) => continue,
+                            Ok(p) if p.magic => p,
+                            _ => continue,
                         };
 
                         if req.mtu < RAKNET_MIN_MTU {
-- 
2.43.0


From 9dac54ca9e2bc2662206edf29c0d86cc1dc736b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:00 +0000
Subject: [PATCH 19/36] fix: IPv6 addresses are written with their version byte
 and read in full

---
 src/datatype.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 1299fd8..0a4bdd5 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -314,8 +315,8 @@ impl RaknetReader {
             );
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
-        } else {
-            if self.buf.remaining() < 44 {
+        } else if ip_ver == 6 {
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
@@ -340,6 +341,8 @@ impl RaknetReader {
                 )),
                 port,
             ))
+        } else {
+            Err(RaknetError::ReadPacketBufferError)
         } //IPv6 address = 128bit = u8 * 16
     }
 
-- 
2.43.0


From 6d43babba2fbb54028a7f85199565265c7105245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:13 +0000
Subject: [PATCH 20/36] fix: an empty datagram is not a repetition of the
 previous one

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index d7b62b6..8348429 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -266,6 +266,11 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    raknet_log_debug!("ignore empty datagram");
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
-- 
2.43.0


From daefbbe4ba8fd4b99d1cb957fddd673359591a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 21/36] fix: datagrams that do not come from the server do not
 affect a client

---
 src/socket.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 7196ea8..1e1df77 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -26,6 +26,11 @@ use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 // a server that answered but does not complete the handshake within this time is gone
 const HANDSHAKE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(30);
 
+// whether a datagram from src can be an answer to one sent to addr
+fn is_reply_source(src: &SocketAddr, addr: &SocketAddr) -> bool {
+    src.port() == addr.port() && (src.ip() == addr.ip() || addr.ip().is_unspecified())
+}
+
 /// Raknet socket wrapper with local and remote.
 pub struct RaknetSocket {
     local_addr: SocketAddr,
@@ -253,6 +258,11 @@ impl RaknetSocket {
                 }
             };
 
+            if !is_reply_source(&src, addr) {
+                raknet_log_debug!("ignore datagram from {}", src);
+                continue;
+            }
+
             remote_addr = src;
             reply1_size = size;
 
@@ -312,7 +322,7 @@ impl RaknetSocket {
             };
 
             let mut buf = [0u8; 2048];
-            let (size, _) =
+            let (size, src) =
                 match match timeout(std::time::Duration::from_secs(2), s.recv_from(&mut buf)).await
                 {
                     Ok(p) => p,
@@ -328,6 +338,11 @@ impl RaknetSocket {
                     }
                 };
 
+            if src != remote_addr {
+                raknet_log_debug!("ignore datagram from {}", src);
+                continue;
+            }
+
             if buf[0] == PacketID::OpenConnectionReply1.to_u8() {
                 raknet_log_debug!("repeat receive reply1");
                 continue;
@@ -376,7 +391,7 @@ impl RaknetSocket {
                 if connected_s.is_closed() {
                     break;
                 }
-                let (size, _) = match match timeout(
+                let (size, src) = match match timeout(
                     std::time::Duration::from_secs(10),
                     recv_s.recv_from(&mut buf),
                 )
@@ -399,6 +414,11 @@ impl RaknetSocket {
                     }
                 };
 
+                if src != remote_addr {
+                    raknet_log_debug!("ignore datagram from {}", src);
+                    continue;
+                }
+
                 match sender.send(buf[..size].to_vec()).await {
                     Ok(_) => {}
                     Err(e) => {
-- 
2.43.0


From aa53ffdf35db6cefb6b950816a0b2796e55fec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:31 +0000
Subject: [PATCH 22/36] fix: close of a listener that never listened returns

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 8348429..a4a95c9 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -593,7 +593,9 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From 50d3e03abd3f69ee8a0a072a1bfe640ec321fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:04 +0000
Subject: [PATCH 23/36] fix: no session begins once the listener is closing

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index a4a95c9..bb2017c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -411,6 +411,11 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
+                        // nobody would end a session that begins now
+                        if close_notify.is_closed() {
+                            break;
+                        }
+
                         if let Some(session) = sessions.get(&addr) {
                             // the reply to this client's earlier request was lost or is late
                             if session.2 == req.guid {
-- 
2.43.0


From 9bd2b60b5662343c420bef418ac5b05b45f27555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:49 +0000
Subject: [PATCH 24/36] fix: local_addr of a closed listener is an error, not a
 panic

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index bb2017c..22fd746 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -583,7 +583,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match &self.socket {
+            Some(p) => Ok(p.local_addr().unwrap()),
+            None => Err(RaknetError::SocketError),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From 60e3a885b7df6ac956564336241f6689a25fe67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 25/36] fix: a client keeps to the MTU of reply 2

---
 src/socket.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 1e1df77..3c51ea5 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -306,7 +306,7 @@ impl RaknetSocket {
 
         let deadline = tokio::time::Instant::now() + HANDSHAKE_TIMEOUT;
 
-        loop {
+        let reply2 = loop {
             if tokio::time::Instant::now() >= deadline {
                 raknet_log_debug!("wait reply2 give up");
                 return Err(RaknetError::ConnectionClosed);
@@ -353,13 +353,18 @@ impl RaknetSocket {
                 continue;
             }
 
-            let _reply2 = match read_packet_connection_open_reply_2(&buf[..size]) {
-                Ok(p) => p,
+            match read_packet_connection_open_reply_2(&buf[..size]) {
+                Ok(p) => break p,
                 Err(_) => return Err(RaknetError::PacketParseError),
             };
+        };
 
-            break;
+        // the server has the last word on the mtu
+        if reply2.mtu < RAKNET_MIN_MTU {
+            raknet_log_debug!("unusable mtu : {}", reply2.mtu);
+            return Err(RaknetError::PacketParseError);
         }
+        let mtu = mtu.min(reply2.mtu);
 
         let sendq = Arc::new(RwLock::new(SendQ::new(mtu)));
 
-- 
2.43.0


From c416b3f82c44d5b0e80787704becac6c87cade6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:33 +0000
Subject: [PATCH 26/36] fix: connect to and ping IPv6 addresses

---
 src/socket.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 3c51ea5..ebe159a 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -26,6 +26,14 @@ use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 // a server that answered but does not complete the handshake within this time is gone
 const HANDSHAKE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(30);
 
+// where to bind a socket that sends to addr
+fn local_bind_addr(addr: &SocketAddr) -> SocketAddr {
+    match addr {
+        SocketAddr::V4(_) => (std::net::Ipv4Addr::UNSPECIFIED, 0).into(),
+        SocketAddr::V6(_) => (std::net::Ipv6Addr::UNSPECIFIED, 0).into(),
+    }
+}
+
 // whether a datagram from src can be an answer to one sent to addr
 fn is_reply_source(src: &SocketAddr, addr: &SocketAddr) -> bool {
     src.port() == addr.port() && (src.ip() == addr.ip() || addr.ip().is_unspecified())
@@ -212,7 +220,7 @@ impl RaknetSocket {
     pub async fn connect_with_version(addr: &SocketAddr, raknet_version: u8) -> Result<Self> {
         let guid: u64 = rand::random();
 
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(local_bind_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
@@ -815,7 +823,7 @@ impl RaknetSocket {
     /// assert!((0..10).contains(&latency));
     /// ```
     pub async fn ping(addr: &SocketAddr) -> Result<(i64, String)> {
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(local_bind_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
-- 
2.43.0


From 7a11955829283c319346c1c7917d12caa3041e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:09 +0000
Subject: [PATCH 27/36] fix: new incoming connection carries the server's
 address

---
 src/socket.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index ebe159a..c8062cf 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -96,7 +96,6 @@ impl RaknetSocket {
     async fn handle(
         frame: &FrameSetPacket,
         peer_addr: &SocketAddr,
-        local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
         user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
@@ -127,7 +126,7 @@ impl RaknetSocket {
                 let packet = read_packet_connection_request_accepted(frame.data.as_slice())?;
 
                 let packet_reply = NewIncomingConnection {
-                    server_address: *local_addr,
+                    server_address: *peer_addr,
                     request_timestamp: packet.request_timestamp,
                     accepted_timestamp: cur_timestamp_millis(),
                 };
@@ -484,7 +483,6 @@ impl RaknetSocket {
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-        let local_addr = self.local_addr;
         let sendq = self.sendq.clone();
         let recvq = self.recvq.clone();
         let last_heartbeat_time = self.last_heartbeat_time.clone();
@@ -500,7 +498,6 @@ impl RaknetSocket {
                         if let Err(e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
-                            &local_addr,
                             &sendq,
                             &user_data_sender,
                             &incomming_notify,
@@ -596,7 +593,6 @@ impl RaknetSocket {
                             match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
-                                &local_addr,
                                 &sendq,
                                 &user_data_sender,
                                 &incomming_notify,
-- 
2.43.0


From b07d46bd778350d663d40dc5b4a8dba263eb0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:31 +0000
Subject: [PATCH 28/36] fix: a session that ended late took the next one of its
 address with it

---
 src/server.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 22fd746..0919969 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -14,8 +14,9 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-// last activity, channel to the session, guid of the client
-type SessionSender = (i64, Sender<Vec<u8>>, u64);
+// last activity, channel to the session, guid of the client unless it disconnected;
+// only the session collecter removes a session, when it has ended
+type SessionSender = (i64, Sender<Vec<u8>>, Option<u64>);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -418,7 +419,7 @@ impl RaknetListener {
 
                         if let Some(session) = sessions.get(&addr) {
                             // the reply to this client's earlier request was lost or is late
-                            if session.2 == req.guid {
+                            if session.2 == Some(req.guid) && !session.1.is_closed() {
                                 match socket.send_to(&reply, addr).await {
                                     Ok(_) => {}
                                     Err(e) => {
@@ -473,28 +474,24 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid));
+                        sessions.insert(addr, (cur_timestamp_millis(), sender, Some(req.guid)));
                         let _ = connection_sender.send(s);
                     }
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr) {
+                        if let Some(session) = sessions.get_mut(&addr) {
                             // fails if the session is ending already
-                            let _ = sessions[&addr].1.send(buf[..size].to_vec()).await;
-                            sessions.remove(&addr);
+                            let _ = session.1.send(buf[..size].to_vec()).await;
+                            session.2 = None;
                         }
                     }
                     _ => {
                         let mut sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr) {
-                            match sessions[&addr].1.send(buf[..size].to_vec()).await {
-                                Ok(_) => {}
-                                Err(_) => {
-                                    sessions.remove(&addr);
-                                    continue;
-                                }
-                            };
-                            sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();
+                        if let Some(session) = sessions.get_mut(&addr) {
+                            // fails if the session is ending already
+                            if session.1.send(buf[..size].to_vec()).await.is_ok() {
+                                session.0 = cur_timestamp_millis();
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 09aa03e5c42d9dfdd01ba653ec940b52ff32bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 29/36] fix: the 65537th split message of a connection panicked

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 77403d6..75d62d8 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -684,7 +684,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From 8a6e72605e63e3fc735162b526885d30ad48fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:07 +0000
Subject: [PATCH 30/36] fix: a repeated fragment of a complete message was kept
 for good

---
 src/arq.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 75d62d8..8a97588 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -488,7 +488,11 @@ impl RecvQ {
             // RELIABLE_ORDERED - 1, 2, 3, 4, 5, 6
             Reliability::ReliableOrdered => {
                 // if remote host not received ack , and local program has flush ordered packet. recvq will insert old packet caused memory leak.
-                if frame.ordered_frame_index < self.last_ordered_index {
+                if frame.ordered_frame_index < self.last_ordered_index
+                    || self
+                        .ordered_packets
+                        .contains_key(&frame.ordered_frame_index)
+                {
                     return Ok(());
                 }
 
-- 
2.43.0


From c226a6711c6891685fadc0fb31f2d53294c57e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:14 +0000
Subject: [PATCH 31/36] fix: a connection stalled when its 24-bit numbers ran
 out

---
 src/arq.rs | 102 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 8a97588..c7f9c36 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -51,6 +51,36 @@ impl Reliability {
 const NEEDS_B_AND_AS_FLAG: u8 = 0x4;
 const CONTINUOUS_SEND_FLAG: u8 = 0x8;
 
+// numbers and indexes have 24 bits and start again from 0 after the last one
+const NUMBERS: u32 = 1 << 24;
+
+fn next_number(n: u32) -> u32 {
+    (n + 1) % NUMBERS
+}
+
+// how many numbers n is after first
+fn number_after(n: u32, first: u32) -> u32 {
+    n.wrapping_sub(first) % NUMBERS
+}
+
+// whether n is first or comes after it, rather than before it
+fn is_not_before(n: u32, first: u32) -> bool {
+    number_after(n, first) < NUMBERS / 2
+}
+
+// the numbers from first up to before end; a range does not go over the last number
+fn ranges(first: u32, end: u32) -> Vec<(u32, u32)> {
+    if first == end {
+        vec![]
+    } else if first < end {
+        vec![(first, end - 1)]
+    } else if end == 0 {
+        vec![(first, NUMBERS - 1)]
+    } else {
+        vec![(first, NUMBERS - 1), (0, end - 1)]
+    }
+}
+
 #[derive(Clone)]
 pub struct FrameSetPacket {
     pub id: u8,
@@ -396,14 +426,9 @@ impl ACKSet {
         }
     }
     pub fn insert(&mut self, s: u32) {
-        if s != 0 {
-            if s > self.last_max && s != self.last_max + 1 {
-                self.nack.push((self.last_max + 1, s - 1));
-            }
-
-            if s > self.last_max {
-                self.last_max = s;
-            }
+        if s != self.last_max && is_not_before(s, self.last_max) {
+            self.nack.extend(ranges(next_number(self.last_max), s));
+            self.last_max = s;
         }
 
         for i in 0..self.ack.len() {
@@ -472,12 +497,12 @@ impl RecvQ {
             // because the new packet represents the new state, and the new state can be used directly, without waiting for the old packet to arrive.
             Reliability::UnreliableSequenced => {
                 let sequenced_frame_index = frame.sequenced_frame_index;
-                if sequenced_frame_index >= self.sequenced_frame_index {
+                if is_not_before(sequenced_frame_index, self.sequenced_frame_index) {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = next_number(sequenced_frame_index);
                     }
                 }
             }
@@ -488,7 +513,7 @@ impl RecvQ {
             // RELIABLE_ORDERED - 1, 2, 3, 4, 5, 6
             Reliability::ReliableOrdered => {
                 // if remote host not received ack , and local program has flush ordered packet. recvq will insert old packet caused memory leak.
-                if frame.ordered_frame_index < self.last_ordered_index
+                if !is_not_before(frame.ordered_frame_index, self.last_ordered_index)
                     || self
                         .ordered_packets
                         .contains_key(&frame.ordered_frame_index)
@@ -513,12 +538,12 @@ impl RecvQ {
             // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
             Reliability::ReliableSequenced => {
                 let sequenced_frame_index = frame.sequenced_frame_index;
-                if sequenced_frame_index >= self.sequenced_frame_index {
+                if is_not_before(sequenced_frame_index, self.sequenced_frame_index) {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = next_number(sequenced_frame_index);
                     }
                 }
             }
@@ -536,18 +561,11 @@ impl RecvQ {
 
     pub fn flush(&mut self, _peer_addr: &SocketAddr) -> Vec<FrameSetPacket> {
         let mut ret = vec![];
-        let mut ordered_keys: Vec<u32> = self.ordered_packets.keys().cloned().collect();
-
-        ordered_keys.sort_unstable();
 
-        for i in ordered_keys {
-            if i == self.last_ordered_index {
-                let frame = self.ordered_packets[&i].clone();
-                ret.push(frame);
-                self.ordered_packets.remove(&i);
-                //raknet_log!("{} : received ordered [{}]" , peer_addr ,self.last_ordered_index);
-                self.last_ordered_index = i + 1;
-            }
+        while let Some(frame) = self.ordered_packets.remove(&self.last_ordered_index) {
+            ret.push(frame);
+            //raknet_log!("{} : received ordered [{}]" , peer_addr ,self.last_ordered_index);
+            self.last_ordered_index = next_number(self.last_ordered_index);
         }
 
         let mut packets_keys: Vec<u32> = self.packets.keys().cloned().collect();
@@ -639,7 +657,7 @@ impl SendQ {
                 frame.ordered_frame_index = self.ordered_frame_index;
                 frame.sequenced_frame_index = self.sequenced_frame_index;
                 self.packets.push(frame);
-                self.sequenced_frame_index += 1;
+                self.sequenced_frame_index = next_number(self.sequenced_frame_index);
             }
             Reliability::Reliable => {
                 // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
@@ -650,7 +668,7 @@ impl SendQ {
                 let mut frame = FrameSetPacket::new(reliability, buf.to_vec());
                 frame.reliable_frame_index = self.reliable_frame_index;
                 self.packets.push(frame);
-                self.reliable_frame_index += 1;
+                self.reliable_frame_index = next_number(self.reliable_frame_index);
             }
             Reliability::ReliableOrdered => {
                 // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
@@ -659,8 +677,8 @@ impl SendQ {
                     frame.reliable_frame_index = self.reliable_frame_index;
                     frame.ordered_frame_index = self.ordered_frame_index;
                     self.packets.push(frame);
-                    self.reliable_frame_index += 1;
-                    self.ordered_frame_index += 1;
+                    self.reliable_frame_index = next_number(self.reliable_frame_index);
+                    self.ordered_frame_index = next_number(self.ordered_frame_index);
                 } else {
                     let max = (self.mtu - 60) as usize;
                     let mut compound_size = buf.len() / max;
@@ -686,10 +704,10 @@ impl SendQ {
                         frame.reliable_frame_index = self.reliable_frame_index;
                         frame.ordered_frame_index = self.ordered_frame_index;
                         self.packets.push(frame);
-                        self.reliable_frame_index += 1;
+                        self.reliable_frame_index = next_number(self.reliable_frame_index);
                     }
                     self.compound_id = self.compound_id.wrapping_add(1);
-                    self.ordered_frame_index += 1;
+                    self.ordered_frame_index = next_number(self.ordered_frame_index);
                 }
             }
             Reliability::ReliableSequenced => {
@@ -705,8 +723,8 @@ impl SendQ {
                 // https://wiki.vg/Raknet_Protocol
                 frame.ordered_frame_index = self.ordered_frame_index;
                 self.packets.push(frame);
-                self.reliable_frame_index += 1;
-                self.sequenced_frame_index += 1;
+                self.reliable_frame_index = next_number(self.reliable_frame_index);
+                self.sequenced_frame_index = next_number(self.sequenced_frame_index);
             }
         };
         Ok(())
@@ -747,7 +765,7 @@ impl SendQ {
                     item.3 + 1
                 );
                 item.0.sequence_number = self.sequence_number;
-                self.sequence_number += 1;
+                self.sequence_number = next_number(self.sequence_number);
                 // resend with the next flush
                 item.1 = false;
                 item.2 = tick;
@@ -762,13 +780,16 @@ impl SendQ {
 
     pub fn ack_range(&mut self, first: u32, last: u32, tick: i64) {
         // numbers that have not been sent cannot be acknowledged
-        if first > last || first >= self.sequence_number {
+        if first > last || is_not_before(first, self.sequence_number) {
             return;
         }
-        let last = last.min(self.sequence_number - 1);
+        let last = last.min(first + number_after(self.sequence_number, first) - 1);
 
-        if first > self.ack_sequence_number + 1 {
-            self.nack(self.ack_sequence_number + 1, first - 1, tick);
+        let expected = next_number(self.ack_sequence_number);
+        if is_not_before(first, expected) {
+            for (i, j) in ranges(expected, first) {
+                self.nack(i, j, tick);
+            }
         }
 
         self.ack_sequence_number = last;
@@ -802,7 +823,7 @@ impl SendQ {
 
             if p.1 && tick - p.2 >= cur_rto {
                 p.0.sequence_number = self.sequence_number;
-                self.sequence_number += 1;
+                self.sequence_number = next_number(self.sequence_number);
                 p.1 = false;
                 p.4.push(p.0.sequence_number);
             }
@@ -815,8 +836,9 @@ impl SendQ {
         let mut ret = vec![];
 
         if !self.sent_packet.is_empty() {
+            let next = self.sequence_number;
             self.sent_packet
-                .sort_by(|x, y| x.0.sequence_number.cmp(&y.0.sequence_number));
+                .sort_by_key(|x| number_after(x.0.sequence_number, next));
 
             for i in 0..self.sent_packet.len() {
                 let p = &mut self.sent_packet[i];
@@ -841,7 +863,7 @@ impl SendQ {
         if !self.packets.is_empty() {
             for i in 0..self.packets.len() {
                 self.packets[i].sequence_number = self.sequence_number;
-                self.sequence_number += 1;
+                self.sequence_number = next_number(self.sequence_number);
                 ret.push(self.packets[i].clone());
                 if self.packets[i].is_reliable().unwrap() {
                     self.sent_packet.push((
-- 
2.43.0


From 9b2e0e305c99800bee9c6c2db05548ecf6bac34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 32/36] hook: counters of a connection can start anywhere
 (--cfg raknet_mc)

---
 src/arq.rs | 33 +++++++++++++++++++++++++++++----
 src/lib.rs |  4 ++++
 src/mc.rs  | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 66 insertions(+), 4 deletions(-)
 create mode 100644 src/mc.rs

diff --git a/src/arq.rs b/src/arq.rs
index c7f9c36..b8d45f2 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -469,14 +469,25 @@ pub struct RecvQ {
 
 impl RecvQ {
     pub fn new() -> Self {
-        Self {
+        let ret = Self {
             sequence_number_ackset: ACKSet::new(),
             packets: HashMap::new(),
             fragment_queue: FragmentQ::new(),
             ordered_packets: HashMap::new(),
             sequenced_frame_index: 0,
             last_ordered_index: 0,
-        }
+        };
+        #[cfg(raknet_mc)]
+        let ret = ret.start_at(crate::mc::start());
+        ret
+    }
+
+    #[cfg(raknet_mc)]
+    fn start_at(mut self, start: crate::mc::Start) -> Self {
+        self.sequence_number_ackset.last_max = start.last();
+        self.sequenced_frame_index = start.sequenced;
+        self.last_ordered_index = start.ordered;
+        self
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) -> Result<()> {
@@ -618,7 +629,7 @@ impl SendQ {
     const RTO_LBOUND: i64 = 50;
 
     pub fn new(mtu: u16) -> Self {
-        Self {
+        let ret = Self {
             mtu,
             ack_sequence_number: 0,
             sequence_number: 0,
@@ -631,7 +642,21 @@ impl SendQ {
 
             rto: SendQ::DEFAULT_TIMEOUT_MILLS,
             srtt: SendQ::DEFAULT_TIMEOUT_MILLS,
-        }
+        };
+        #[cfg(raknet_mc)]
+        let ret = ret.start_at(crate::mc::start());
+        ret
+    }
+
+    #[cfg(raknet_mc)]
+    fn start_at(mut self, start: crate::mc::Start) -> Self {
+        self.ack_sequence_number = start.last();
+        self.sequence_number = start.number;
+        self.reliable_frame_index = start.reliable;
+        self.sequenced_frame_index = start.sequenced;
+        self.ordered_frame_index = start.ordered;
+        self.compound_id = start.compound;
+        self
     }
 
     pub fn insert(&mut self, reliability: Reliability, buf: &[u8]) -> Result<()> {
diff --git a/src/lib.rs b/src/lib.rs
index 1292fef..ab37fba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -38,11 +38,15 @@
 //! - [x] reliable ordered
 //! - [x] reliable sequenced
 
+#![allow(unexpected_cfgs)]
+
 mod arq;
 mod datatype;
 pub mod error;
 mod fragment;
 mod log;
+#[cfg(raknet_mc)]
+pub mod mc;
 mod packet;
 mod server;
 mod socket;
diff --git a/src/mc.rs b/src/mc.rs
new file mode 100644
index 0000000..2a1efc0
--- /dev/null
+++ b/src/mc.rs
@@ -0,0 +1,33 @@
+//! Where the counters of new connections start, for the model checker (`--cfg raknet_mc`).
+
+use std::cell::Cell;
+
+/// The first numbers and indexes that both ends of a new connection use.
+#[derive(Clone, Copy, Default)]
+pub struct Start {
+    pub number: u32,
+    pub reliable: u32,
+    pub sequenced: u32,
+    pub ordered: u32,
+    pub compound: u16,
+}
+
+impl Start {
+    /// The number before the first one.
+    pub(crate) fn last(&self) -> u32 {
+        self.number.saturating_sub(1)
+    }
+}
+
+thread_local! {
+    static START: Cell<Start> = Cell::default();
+}
+
+/// Connections that this thread creates from now on start there.
+pub fn set_start(start: Start) {
+    START.with(|s| s.set(start));
+}
+
+pub(crate) fn start() -> Start {
+    START.with(|s| s.get())
+}
-- 
2.43.0


From d9802e90b8ea7da62769567c5c0c19ccaae14a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:28 +0000
Subject: [PATCH 33/36] fix: a send that was given up dropped messages of other
 calls

---
 src/socket.rs | 54 +++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index c8062cf..04addfe 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -51,7 +51,8 @@ pub struct RaknetSocket {
     enable_loss: Arc<AtomicBool>,
     loss_rate: Arc<AtomicU8>,
     incomming_notifier: Arc<Notify>,
-    sender: Sender<(Vec<u8>, SocketAddr, bool, u8)>,
+    // every item is what one call of send() takes out of the send queue
+    sender: Sender<Vec<(Vec<u8>, SocketAddr, bool, u8)>>,
     drop_notifier: Arc<Notify>,
     raknet_version: u8,
 }
@@ -69,7 +70,7 @@ impl RaknetSocket {
         raknet_version: u8,
     ) -> Self {
         let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
-        let (sender_sender, sender_receiver) = channel::<(Vec<u8>, SocketAddr, bool, u8)>(10);
+        let (sender_sender, sender_receiver) = channel::<Vec<(Vec<u8>, SocketAddr, bool, u8)>>(10);
 
         let ret = RaknetSocket {
             peer_addr: *addr,
@@ -443,7 +444,7 @@ impl RaknetSocket {
             raknet_log_debug!("{} , recv_from finished", peer_addr);
         });
 
-        let (sender_sender, sender_receiver) = channel::<(Vec<u8>, SocketAddr, bool, u8)>(10);
+        let (sender_sender, sender_receiver) = channel::<Vec<(Vec<u8>, SocketAddr, bool, u8)>>(10);
 
         let ret = RaknetSocket {
             peer_addr: *addr,
@@ -648,22 +649,24 @@ impl RaknetSocket {
     fn start_sender(
         &self,
         s: &Arc<UdpSocket>,
-        mut receiver: Receiver<(Vec<u8>, SocketAddr, bool, u8)>,
+        mut receiver: Receiver<Vec<(Vec<u8>, SocketAddr, bool, u8)>>,
     ) {
         let connected = self.close_notifier.clone();
         let s = s.clone();
         tokio::spawn(async move {
-            loop {
+            'worker: loop {
                 tokio::select! {
                     a = receiver.recv() => {
                         match a {
-                            Some(p) => {
-                                match RaknetSocket::sendto(&s, &p.0, &p.1, p.2, p.3).await{
-                                    Ok(_) => {},
-                                    Err(e) => {
-                                        raknet_log_debug!("sendto error : {}" , e);
-                                        break;
-                                    },
+                            Some(burst) => {
+                                for p in burst {
+                                    match RaknetSocket::sendto(&s, &p.0, &p.1, p.2, p.3).await{
+                                        Ok(_) => {},
+                                        Err(e) => {
+                                            raknet_log_debug!("sendto error : {}" , e);
+                                            break 'worker;
+                                        },
+                                    }
                                 }
                             },
                             None => {
@@ -891,22 +894,27 @@ impl RaknetSocket {
             return Err(RaknetError::ConnectionClosed);
         }
 
+        // a call that is given up must not take messages of other calls out
+        // of the send queue and drop them, so nothing is awaited after that
+        let permit = self
+            .sender
+            .reserve()
+            .await
+            .map_err(|_| RaknetError::ConnectionClosed)?;
+
         //flush sendq
         let mut sendq = self.sendq.write().await;
         sendq.insert(r, buf)?;
-        let sender = self.sender.clone();
+        let mut burst = vec![];
         for f in sendq.flush(cur_timestamp_millis(), &self.peer_addr) {
-            let data = f.serialize().unwrap();
-            sender
-                .send((
-                    data,
-                    self.peer_addr,
-                    self.enable_loss.load(Ordering::Relaxed),
-                    self.loss_rate.load(Ordering::Relaxed),
-                ))
-                .await
-                .map_err(|_| RaknetError::ConnectionClosed)?;
+            burst.push((
+                f.serialize().unwrap(),
+                self.peer_addr,
+                self.enable_loss.load(Ordering::Relaxed),
+                self.loss_rate.load(Ordering::Relaxed),
+            ));
         }
+        permit.send(burst);
         Ok(())
     }
 
-- 
2.43.0


From 2a7178f007469adba2b4f68bdb90fad68180db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:46 +0000
Subject: [PATCH 34/36] fix: closing a listener again did not wait when the
 first call was given up

---
 src/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 0919969..12b72a3 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -594,12 +594,15 @@ impl RaknetListener {
     /// socket.close().await;
     /// ```
     pub async fn close(&mut self) -> Result<()> {
-        if self.close_notifier.is_closed() {
+        // an earlier call that was given up may have closed the notifier but
+        // not waited for the rest, the socket is only dropped at the end
+        if self.socket.is_none() {
             return Ok(());
         }
         self.close_notifier.close();
         if self.listened {
             self.all_session_closed_notifier.notified().await;
+            self.listened = false;
         }
 
         // wait all thread exit and drop socket pointer.
@@ -609,7 +612,6 @@ impl RaknetListener {
 
         // drop socket and free bind port
         self.socket = None;
-        self.listened = false;
 
         Ok(())
     }
-- 
2.43.0


From b0f01f4f19163c43d26b157acb64d983a073a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:29 +0000
Subject: [PATCH 35/36] fix: setting the system clock stalled or closed
 connections

---
 src/utils.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index b62903e..9ddb4dc 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,6 @@
+use std::sync::OnceLock;
+use std::time::Instant;
+
 pub const RAKNET_PROTOCOL_VERSION: u8 = 10;
 pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
@@ -14,13 +17,21 @@ pub enum Endian {
     Little,
 }
 
+/// Milliseconds since the epoch. The clock is read once, it may be set while
+/// timeouts are measured, so the time that went by since then is added to it.
 pub fn cur_timestamp_millis() -> i64 {
-    std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap()
-        .as_millis()
-        .try_into()
-        .unwrap_or(0)
+    static START: OnceLock<(Instant, i64)> = OnceLock::new();
+
+    let (start, epoch) = START.get_or_init(|| {
+        let epoch = std::time::SystemTime::now()
+            .duration_since(std::time::UNIX_EPOCH)
+            .unwrap_or_default()
+            .as_millis()
+            .try_into()
+            .unwrap_or(0);
+        (Instant::now(), epoch)
+    });
+    epoch + start.elapsed().as_millis() as i64
 }
 
 pub fn _is_timeout(time: i64, timeout: u64) -> bool {
-- 
2.43.0


From d9f45aed9ff65d1647c6f7d0185285f55381ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:04 +0000
Subject: [PATCH 36/36] fix: many gaps are reported in several nacks, each of
 which fits in a datagram

One nack with all the gaps of a tick could exceed what one datagram carries:
it was not sent at all, or the peer read only the beginning of it.
---
 src/socket.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 04addfe..0326ea1 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -26,6 +26,9 @@ use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 // a server that answered but does not complete the handshake within this time is gone
 const HANDSHAKE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(30);
 
+// a nack with this many records fits in a datagram of any mtu
+const MAX_NACK_RECORDS: usize = 50;
+
 // where to bind a socket that sends to addr
 fn local_bind_addr(addr: &SocketAddr) -> SocketAddr {
     match addr {
@@ -705,11 +708,11 @@ impl RaknetSocket {
 
                 // flush nack
                 let mut recvq = recvq.lock().await;
-                let nacks = recvq.get_nack();
-                if !nacks.is_empty() {
+                // a nack has to fit in one datagram, so many gaps take several of them
+                for sequences in recvq.get_nack().chunks(MAX_NACK_RECORDS) {
                     let nack = Nack {
-                        record_count: nacks.len() as u16,
-                        sequences: nacks,
+                        record_count: sequences.len() as u16,
+                        sequences: sequences.to_vec(),
                     };
 
                     let buf = write_packet_nack(&nack).unwrap();
-- 
2.43.0

