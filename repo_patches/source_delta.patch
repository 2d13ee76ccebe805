From 055965c7f489bc68b1f7e33980025f41c74edbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 01/25] fix: fail pending soft closes when a connection can no
 longer send

---
 cdn-proto/src/connection/protocols/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index b53b1e6..08e76ce 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -161,16 +161,14 @@ impl Connection {
                         // Write the message to the stream
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
-                            receive_from_caller.close();
-                            return;
+                            break;
                         };
 
                         // Flush the writer
                         // Is a no-op for everything but TCP+TLS
                         if let Err(err) = writer.flush().await {
                             warn!("failed to flush writer: {:?}", err);
-                            receive_from_caller.close();
-                            return;
+                            break;
                         };
                     }
                     BytesOrSoftClose::SoftClose(result_sender) => {
@@ -182,6 +180,11 @@ impl Connection {
                     }
                 }
             }
+
+            // We can't send anything anymore. Close the channel and discard what is still
+            // queued so that a pending soft close fails instead of waiting forever
+            receive_from_caller.close();
+            while receive_from_caller.try_recv().is_ok() {}
         })
         .abort_handle();
 
-- 
2.43.0


From b86fd40d52fcc1094ebb675f970af37fb496f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 02/25] fix: pair each in-memory connect with its own accept

---
 cdn-proto/src/connection/protocols/memory.rs | 82 +++++++++++---------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/memory.rs b/cdn-proto/src/connection/protocols/memory.rs
index ab05ddf..644a30f 100644
--- a/cdn-proto/src/connection/protocols/memory.rs
+++ b/cdn-proto/src/connection/protocols/memory.rs
@@ -14,7 +14,7 @@ use async_trait::async_trait;
 use rustls::pki_types::{CertificateDer, PrivateKeyDer};
 use tokio::{
     io::{duplex, DuplexStream},
-    sync::RwLock,
+    sync::{oneshot, RwLock},
     task::spawn_blocking,
 };
 
@@ -25,11 +25,13 @@ use crate::{
     error::{Error, Result},
 };
 
-type ChannelExchange = (Sender<DuplexStream>, Receiver<DuplexStream>);
+/// What a connecting party hands to the listener: its stream, and the way for
+/// the listener to return the matching one.
+type ChannelExchange = (DuplexStream, oneshot::Sender<DuplexStream>);
 
 /// A global list of listeners that are initialized later. This is to help
 /// connections find listeners.
-static LISTENERS: OnceLock<RwLock<HashMap<String, ChannelExchange>>> = OnceLock::new();
+static LISTENERS: OnceLock<RwLock<HashMap<String, Sender<ChannelExchange>>>> = OnceLock::new();
 
 #[derive(Clone, PartialEq, Eq)]
 /// The `Memory` protocol. Runs everything through channels for local testing purposes.
@@ -51,9 +53,12 @@ impl Protocol for Memory {
     ) -> Result<Connection> {
         // If the peer is not listening, return an error
         // Get or initialize the channels as a static value
-        let listeners = LISTENERS.get_or_init(RwLock::default).read().await;
-        let Some((channel_exchange_sender, channel_exchange_receiver)) =
-            listeners.get(remote_endpoint)
+        let Some(channel_exchange_sender) = LISTENERS
+            .get_or_init(RwLock::default)
+            .read()
+            .await
+            .get(remote_endpoint)
+            .cloned()
         else {
             return Err(Error::Connection(
                 "failed to connect to remote: connection refused".to_string(),
@@ -64,15 +69,18 @@ impl Protocol for Memory {
         let (send_to_us, receive_from_them) = duplex(8192);
 
         // Send our channel to them
+        let (reply_sender, reply_receiver) = oneshot::channel();
         bail!(
-            channel_exchange_sender.send(send_to_us).await,
+            channel_exchange_sender
+                .send((send_to_us, reply_sender))
+                .await,
             Connection,
             "failed to connect to remote endpoint"
         );
 
         // Receive their channel
         let send_to_them = bail!(
-            channel_exchange_receiver.recv().await,
+            reply_receiver.await,
             Connection,
             "failed to connect to remote endpoint"
         );
@@ -94,19 +102,17 @@ impl Protocol for Memory {
         _certificate: CertificateDer<'static>,
         _key: PrivateKeyDer<'static>,
     ) -> Result<Self::Listener> {
-        // Create our channels
+        // Create our channel
         let (send_to_us, receive_from_them) = unbounded();
-        let (send_to_them, receive_from_us) = unbounded();
 
         // Add to our listeners
         let mut listeners = LISTENERS.get_or_init(RwLock::default).write().await;
-        listeners.insert(bind_endpoint.to_string(), (send_to_us, receive_from_us));
+        listeners.insert(bind_endpoint.to_string(), send_to_us);
 
         // Return our listener as a u64 bind endpoint
         Ok(MemoryListener {
             bind_endpoint: bind_endpoint.to_string(),
             receive_new_connection: receive_from_them,
-            send_to_new_connection: send_to_them,
         })
     }
 }
@@ -134,8 +140,7 @@ impl UnfinalizedConnection for UnfinalizedMemoryConnection {
 /// so we can remove on drop.
 pub struct MemoryListener {
     bind_endpoint: String,
-    receive_new_connection: Receiver<DuplexStream>,
-    send_to_new_connection: Sender<DuplexStream>,
+    receive_new_connection: Receiver<ChannelExchange>,
 }
 
 #[async_trait]
@@ -147,34 +152,39 @@ impl Listener<UnfinalizedMemoryConnection> for MemoryListener {
     /// # Errors
     /// - If we fail to accept a connection from the listener.
     async fn accept(&self) -> Result<UnfinalizedMemoryConnection> {
-        // Accept a channel from the sender
-        let bytes_sender = bail!(
-            self.receive_new_connection.recv().await,
-            Connection,
-            "failed to accept remote connection"
-        );
-
-        // Create our bytes sender
-        let (send_bytes_to_us, bytes_receiver) = duplex(8192);
-
-        // Send the remote connection our channel
-        bail!(
-            self.send_to_new_connection.send(send_bytes_to_us).await,
-            Connection,
-            "failed to finalize connection"
-        );
-
-        // Return our unfinalized connection
-        Ok(UnfinalizedMemoryConnection {
-            send_stream: bytes_sender,
-            receive_stream: bytes_receiver,
-        })
+        loop {
+            // Accept a channel from the sender
+            let (bytes_sender, reply_sender) = bail!(
+                self.receive_new_connection.recv().await,
+                Connection,
+                "failed to accept remote connection"
+            );
+
+            // Create our bytes sender
+            let (send_bytes_to_us, bytes_receiver) = duplex(8192);
+
+            // Send the remote connection our channel. If it has given up on
+            // connecting in the meantime, wait for the next one.
+            if reply_sender.send(send_bytes_to_us).is_err() {
+                continue;
+            }
+
+            // Return our unfinalized connection
+            return Ok(UnfinalizedMemoryConnection {
+                send_stream: bytes_sender,
+                receive_stream: bytes_receiver,
+            });
+        }
     }
 }
 
 /// On `Drop`, we want to remove ourself from the map of listeners.
 impl Drop for MemoryListener {
     fn drop(&mut self) {
+        // Refuse those that are still waiting to be accepted
+        self.receive_new_connection.close();
+        while self.receive_new_connection.try_recv().is_ok() {}
+
         // Clone the bind endpoint so we can use it
         let bind_endpoint = self.bind_endpoint.clone();
 
-- 
2.43.0


From ed501718a636b6ab2efae07079a8da5f823fc8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 03/25] fix: do not underflow on authentication timestamps from
 the future

---
 cdn-proto/src/connection/auth/broker.rs  | 2 +-
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/connection/auth/broker.rs b/cdn-proto/src/connection/auth/broker.rs
index c75839c..8e956fa 100644
--- a/cdn-proto/src/connection/auth/broker.rs
+++ b/cdn-proto/src/connection/auth/broker.rs
@@ -278,7 +278,7 @@ impl<R: RunDef> BrokerAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        if timestamp.as_secs().abs_diff(auth_message.timestamp) > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 418ea3c..088625f 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -78,7 +78,7 @@ impl<R: RunDef> MarshalAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        if timestamp.as_secs().abs_diff(auth_message.timestamp) > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
-- 
2.43.0


From 8c48b349e7fd0b10269a749da44d46287fb255d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 04/25] fix: deliver a broker's refusal before dropping the
 connection

---
 cdn-broker/src/tasks/broker/handler.rs |  3 +++
 cdn-broker/src/tasks/user/handler.rs   | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index 9302490..dcaac3b 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -54,6 +54,9 @@ impl<Def: RunDef> Inner<Def> {
             Ok(Ok(broker_identifier)) => broker_identifier,
             Ok(Err(e)) => {
                 error!("failed to authenticate with broker: {:?}", e);
+
+                // Soft close the connection, ensuring a possible refusal was sent
+                let _ = connection.soft_close().await;
                 return;
             }
             _ => {
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index d43463c..0f628aa 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -26,7 +26,7 @@ impl<Def: RunDef> Inner<Def> {
     pub async fn handle_user_connection(self: Arc<Self>, connection: Connection) {
         // Verify (authenticate) the connection. Needs to happen within 5 seconds
         // TODO: make this stateless (e.g. separate subscribe message on connect)
-        let Ok(Ok((public_key, mut topics))) = timeout(
+        let (public_key, mut topics) = match timeout(
             Duration::from_secs(5),
             BrokerAuth::<Def>::verify_user(
                 &connection,
@@ -36,8 +36,14 @@ impl<Def: RunDef> Inner<Def> {
             ),
         )
         .await
-        else {
-            return;
+        {
+            Ok(Ok(verified)) => verified,
+            Ok(Err(_)) => {
+                // Soft close the connection, ensuring the refusal was sent
+                let _ = connection.soft_close().await;
+                return;
+            }
+            Err(_) => return,
         };
 
         // Prune the supplied topics
-- 
2.43.0


From bd7e626dfaa088ddecf05069fb9d5333734e0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 05/25] fix: register a connection before its receive loop can
 act on it

---
 cdn-broker/src/tasks/broker/handler.rs | 51 ++++++++++++++------------
 cdn-broker/src/tasks/user/handler.rs   | 41 +++++++++++----------
 2 files changed, 49 insertions(+), 43 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index dcaac3b..a072184 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -70,32 +70,35 @@ impl<Def: RunDef> Inner<Def> {
         let connection_ = connection.clone();
         let broker_identifier_ = broker_identifier.clone();
 
-        // Start the receiving end of the broker
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_
-                .broker_receive_loop(&broker_identifier_, connection_)
-                .await
-            {
-                error!(
-                    id = %broker_identifier_,
-                    error = err.to_string(),
-                    "broker error"
-                );
+        {
+            // Hold the lock until the broker is added, so that its receive loop can't act before
+            let mut connections = self.connections.write();
+
+            // Start the receiving end of the broker
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_
+                    .broker_receive_loop(&broker_identifier_, connection_)
+                    .await
+                {
+                    error!(
+                        id = %broker_identifier_,
+                        error = err.to_string(),
+                        "broker error"
+                    );
 
-                // Remove the broker from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to receive message");
-            };
-        })
-        .abort_handle();
+                    // Remove the broker from the map
+                    self_
+                        .connections
+                        .write()
+                        .remove_broker(&broker_identifier_, "failed to receive message");
+                };
+            })
+            .abort_handle();
 
-        // Add to our list of connections, removing the old one if it exists
-        self.connections
-            .write()
-            .add_broker(broker_identifier.clone(), connection, receive_handle);
+            // Add to our list of connections, removing the old one if it exists
+            connections.add_broker(broker_identifier.clone(), connection, receive_handle);
+        }
 
         // Send a full topic sync
         if let Err(err) = self.full_topic_sync(&broker_identifier).await {
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index 0f628aa..d31deda 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -61,25 +61,28 @@ impl<Def: RunDef> Inner<Def> {
         let public_key_ = public_key.clone();
         let connection_ = connection.clone();
 
-        // Spawn the user receive loop
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
-                warn!(id = user_identifier, error = err.to_string(), "user error");
-
-                // Remove the user from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_user(public_key_, "failed to receive message");
-            };
-        })
-        .abort_handle();
-
-        // Add our user and remove the old one if it exists
-        self.connections
-            .write()
-            .add_user(&public_key, connection, &topics, receive_handle);
+        {
+            // Hold the lock until the user is added, so that its receive loop can't act before
+            let mut connections = self.connections.write();
+
+            // Spawn the user receive loop
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
+                    warn!(id = user_identifier, error = err.to_string(), "user error");
+
+                    // Remove the user from the map
+                    self_
+                        .connections
+                        .write()
+                        .remove_user(public_key_, "failed to receive message");
+                };
+            })
+            .abort_handle();
+
+            // Add our user and remove the old one if it exists
+            connections.add_user(&public_key, connection, &topics, receive_handle);
+        }
 
         // If we have `strong-consistency` enabled,
         #[cfg(feature = "strong-consistency")]
-- 
2.43.0


From 61064c1522bc1f66b916f637a2dd8585862a849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 06/25] fix: let a failed connection remove or alter only its
 own session

---
 cdn-broker/src/connections/mod.rs         | 48 +++++++++++++++++++++++
 cdn-broker/src/tasks/broker/handler.rs    | 18 +++++----
 cdn-broker/src/tasks/broker/sender.rs     |  9 +++--
 cdn-broker/src/tasks/user/handler.rs      | 28 +++++++------
 cdn-broker/src/tasks/user/sender.rs       |  8 ++--
 cdn-proto/src/connection/protocols/mod.rs |  6 +++
 6 files changed, 91 insertions(+), 26 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 6499a99..bb877b5 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -350,6 +350,54 @@ impl Connections {
             .remove_if_equals(user_public_key, self.identity.clone());
     }
 
+    /// Whether a connection is the one a broker is currently connected with. It is not
+    /// if the broker was removed or has since connected again.
+    pub fn is_current_broker(
+        &self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+    ) -> bool {
+        self.brokers
+            .get(broker_identifier)
+            .is_some_and(|broker| broker.connection.is_same(connection))
+    }
+
+    /// Whether a connection is the one a user is currently connected with. It is not
+    /// if the user was removed or has since connected again.
+    pub fn is_current_user(
+        &self,
+        user_public_key: &UserPublicKey,
+        connection: &Connection,
+    ) -> bool {
+        self.users
+            .get(user_public_key)
+            .is_some_and(|(current, _)| current.is_same(connection))
+    }
+
+    /// Remove a broker because a connection to it failed, unless it has since connected again.
+    pub fn remove_failed_broker(
+        &mut self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self.is_current_broker(broker_identifier, connection) {
+            self.remove_broker(broker_identifier, reason);
+        }
+    }
+
+    /// Remove a user because a connection to it failed, unless it has since connected again.
+    pub fn remove_failed_user(
+        &mut self,
+        user_public_key: UserPublicKey,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self.is_current_user(&user_public_key, connection) {
+            self.remove_user(user_public_key, reason);
+        }
+    }
+
     /// Locally subscribe a broker to some topics.
     pub fn subscribe_broker_to(
         &mut self,
diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index a072184..3ecc8b6 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -78,7 +78,7 @@ impl<Def: RunDef> Inner<Def> {
             let receive_handle = spawn(async move {
                 // If we error, come back to the callback so we can remove the connection from the list.
                 if let Err(err) = self_
-                    .broker_receive_loop(&broker_identifier_, connection_)
+                    .broker_receive_loop(&broker_identifier_, connection_.clone())
                     .await
                 {
                     error!(
@@ -88,10 +88,11 @@ impl<Def: RunDef> Inner<Def> {
                     );
 
                     // Remove the broker from the map
-                    self_
-                        .connections
-                        .write()
-                        .remove_broker(&broker_identifier_, "failed to receive message");
+                    self_.connections.write().remove_failed_broker(
+                        &broker_identifier_,
+                        &connection_,
+                        "failed to receive message",
+                    );
                 };
             })
             .abort_handle();
@@ -188,9 +189,10 @@ impl<Def: RunDef> Inner<Def> {
                     );
 
                     // Apply the topic sync
-                    self.connections
-                        .write()
-                        .apply_topic_sync(broker_identifier, topic_sync);
+                    let mut connections = self.connections.write();
+                    if connections.is_current_broker(broker_identifier, &connection) {
+                        connections.apply_topic_sync(broker_identifier, topic_sync);
+                    }
                 }
 
                 // Do nothing if we receive an unexpected message
diff --git a/cdn-broker/src/tasks/broker/sender.rs b/cdn-broker/src/tasks/broker/sender.rs
index bbb7de8..f8597fd 100644
--- a/cdn-broker/src/tasks/broker/sender.rs
+++ b/cdn-broker/src/tasks/broker/sender.rs
@@ -36,10 +36,11 @@ impl<Def: RunDef> Inner<Def> {
                 error!("failed to send message to broker: {:?}", e);
 
                 // Remove the broker if we failed to send the message
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to send message");
+                self_.connections.write().remove_failed_broker(
+                    &broker_identifier_,
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index d31deda..8593456 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -68,14 +68,18 @@ impl<Def: RunDef> Inner<Def> {
             // Spawn the user receive loop
             let receive_handle = spawn(async move {
                 // If we error, come back to the callback so we can remove the connection from the list.
-                if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
+                if let Err(err) = self_
+                    .user_receive_loop(&public_key_, connection_.clone())
+                    .await
+                {
                     warn!(id = user_identifier, error = err.to_string(), "user error");
 
                     // Remove the user from the map
-                    self_
-                        .connections
-                        .write()
-                        .remove_user(public_key_, "failed to receive message");
+                    self_.connections.write().remove_failed_user(
+                        public_key_,
+                        &connection_,
+                        "failed to receive message",
+                    );
                 };
             })
             .abort_handle();
@@ -151,9 +155,10 @@ impl<Def: RunDef> Inner<Def> {
                     Def::Topic::prune(&mut subscribe)?;
 
                     // TODO: add handle functions for this to make it easier to read
-                    self.connections
-                        .write()
-                        .subscribe_user_to(public_key, subscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_current_user(public_key, &connection) {
+                        connections.subscribe_user_to(public_key, subscribe);
+                    }
                 }
 
                 // Unsubscribe messages from users will just update the state locally
@@ -161,9 +166,10 @@ impl<Def: RunDef> Inner<Def> {
                     // Prune the topics
                     Def::Topic::prune(&mut unsubscribe)?;
 
-                    self.connections
-                        .write()
-                        .unsubscribe_user_from(public_key, &unsubscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_current_user(public_key, &connection) {
+                        connections.unsubscribe_user_from(public_key, &unsubscribe);
+                    }
                 }
 
                 _ => return Err(Error::Connection("invalid message received".to_string())),
diff --git a/cdn-broker/src/tasks/user/sender.rs b/cdn-broker/src/tasks/user/sender.rs
index c701f38..f045f59 100644
--- a/cdn-broker/src/tasks/user/sender.rs
+++ b/cdn-broker/src/tasks/user/sender.rs
@@ -24,9 +24,11 @@ impl<Def: RunDef> Inner<Def> {
                 error!("failed to send message to user: {:?}", e);
 
                 // Remove the broker if we failed to send the message
-                self.connections
-                    .write()
-                    .remove_user(user.clone(), "failed to send message");
+                self.connections.write().remove_failed_user(
+                    user.clone(),
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 08e76ce..a88277d 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -134,6 +134,12 @@ impl Connection {
         }))
     }
 
+    /// Whether this is (a clone of) the same connection as the other
+    #[must_use]
+    pub fn is_same(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
+
     /// Converts a set of writer and reader streams into a connection.
     /// Under the hood, this spawns sending and receiving tasks.
     fn from_streams<
-- 
2.43.0


From 366cbf2bdd861b42f7a6e195d38fcba740f039ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 07/25] fix: keep a user that is still connected when a sync
 names its own broker or none

---
 cdn-broker/src/connections/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index bb877b5..9a7eb2e 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -156,7 +156,20 @@ impl Connections {
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, _new_broker) in users_to_remove {
+        for (user, new_broker) in users_to_remove {
+            if self.users.contains_key(&user) {
+                match new_broker {
+                    // They really are still connected to us
+                    Some(broker) if broker == self.identity => continue,
+                    // They left the other broker, but are still connected to us
+                    None => {
+                        self.direct_map.insert(user, self.identity.clone());
+                        continue;
+                    }
+                    Some(_) => {}
+                }
+            }
+
             self.remove_user(user, "user connected elsewhere");
         }
     }
-- 
2.43.0


From 47c2dbc132ed901b82d16324e0238e236c01b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 08/25] fix: make user locations converge whatever the order of
 the exchanges

---
 cdn-broker/src/connections/broadcast/mod.rs |   2 +-
 cdn-broker/src/connections/versioned_map.rs | 104 +++++++-------------
 2 files changed, 36 insertions(+), 70 deletions(-)

diff --git a/cdn-broker/src/connections/broadcast/mod.rs b/cdn-broker/src/connections/broadcast/mod.rs
index 863208a..db98880 100644
--- a/cdn-broker/src/connections/broadcast/mod.rs
+++ b/cdn-broker/src/connections/broadcast/mod.rs
@@ -16,7 +16,7 @@ use rkyv::{Archive, Deserialize, Serialize};
 
 use super::versioned_map::VersionedMap;
 
-#[derive(Debug, Eq, PartialEq, Serialize, Deserialize, Archive, Clone)]
+#[derive(Debug, Eq, PartialEq, PartialOrd, Serialize, Deserialize, Archive, Clone)]
 #[archive(check_bytes)]
 pub enum SubscriptionStatus {
     Subscribed,
diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 4649d1c..4ceebe9 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -45,17 +45,14 @@ pub struct VersionedMap<K: Eq + Hash + Debug, V: Debug, C> {
     #[derivative(PartialEq = "ignore")]
     locally_modified_keys: HashSet<K>,
 
-    /// The conflict identity for resolving conflicts. If there is a conflict, the higher value wins.
-    /// There are no guarantees on what happens when two actors of the same identity try to make changes.
+    /// The identity of the actor the map belongs to. It is part of the serialized form, but not
+    /// used for resolving conflicts (see `merge`).
     #[derivative(PartialEq = "ignore")]
     conflict_identity: C,
 }
 
-impl<
-        K: PartialEq + Eq + Hash + Clone + Debug,
-        V: Clone + PartialEq + Debug,
-        C: Clone + PartialOrd,
-    > VersionedMap<K, V, C>
+impl<K: PartialEq + Eq + Hash + Clone + Debug, V: Clone + PartialOrd + Debug, C: Clone>
+    VersionedMap<K, V, C>
 {
     /// Create a new `VersionedMap` from a conflict identity. We use this to resolve conflicts, if any arise.
     pub fn new(conflict_identity: C) -> Self {
@@ -88,11 +85,9 @@ impl<
                 // Get the underlying value
                 let entry = entry.get_mut();
 
-                // If we haven't already made an unsynced local modification
-                if !self.locally_modified_keys.contains(&k) {
-                    // Add one to the version
-                    entry.version += 1;
-                }
+                // Add one to the version. A previous local modification might already have been
+                // sent as part of the full map
+                entry.version += 1;
 
                 // Set the version equal to the one we supplied
                 entry.value = v;
@@ -175,13 +170,8 @@ impl<
             // If the value exists in the map,
             if let Some(value) = self.underlying_map.get(&modified_key) {
                 // Insert it into the map of differences
+                // We keep tombstones: they need to win over older values that arrive later
                 diff_map.insert(modified_key.clone(), value.clone());
-
-                // If the value is none,
-                if value.value.is_none() {
-                    // Remove it from the underlying map. We don't need to keep track of it any more.
-                    self.underlying_map.remove(&modified_key);
-                }
             }
         }
 
@@ -194,7 +184,7 @@ impl<
     }
 
     /// Merge the changes from two `VersionedMap`s, keeping only the newest changes. On a conflict,
-    /// uses the `conflict_identity` to figure out who should get the value.
+    /// the bigger value wins.
     ///
     /// Returns a vector of `(K, Option<V>)` pairs that represent the changes that were made.
     /// TODO: `Rc` or `Arc` the cloned values?
@@ -206,59 +196,35 @@ impl<
         for (remote_key, remote_value) in remote.underlying_map {
             // If we have a local value for it,
             if let Some(local_value) = self.underlying_map.get_mut(&remote_key) {
-                // Compare the remote value's version to ours.
-                match remote_value.version.cmp(&local_value.version) {
-                    // If the remote version is greater, update our value.
-                    Ordering::Greater => {
-                        if remote_value.value.is_some() {
-                            // Update our value if it is something.
-                            local_value.value.clone_from(&remote_value.value);
-                            local_value.version = remote_value.version;
-                        } else {
-                            // Remove if they sent us a tombstone.
-                            self.underlying_map.remove(&remote_key);
-                        }
-
-                        // Remove it from our locally modified keys, in case we also tried to update it.
-                        self.locally_modified_keys.remove(&remote_key);
-
-                        // Push to the changes that we return.
-                        changes.push((remote_key, remote_value.value));
-                    }
-
-                    // If the remote value is equal to our value,
-                    Ordering::Equal => {
-                        // The value with the bigger conflict identity wins
-                        if remote.conflict_identity > self.conflict_identity {
-                            // If there is some value,
-                            // TODO: duplicate code here and above. macro it?
-                            if remote_value.value.is_some() {
-                                // Update our value
-                                local_value.value.clone_from(&remote_value.value);
-                                local_value.version = remote_value.version;
-                            } else {
-                                // Remove the value if it wa snothing
-                                self.underlying_map.remove(&remote_key);
-                            }
-
-                            // Remove it from our locally modified keys, in case we also tried to update it.
-                            self.locally_modified_keys.remove(&remote_key);
-                            // Push to the changes that we return.
-                            changes.push((remote_key, remote_value.value));
-                        }
-                    }
-
-                    // If our value is newer, discard the update
-                    Ordering::Less => {}
+                // Compare the remote value's version to ours
+                let is_newer = match remote_value.version.cmp(&local_value.version) {
+                    Ordering::Greater => true,
+                    // On a conflict the bigger value wins. It is the same one for everybody, no
+                    // matter who they hear it from
+                    Ordering::Equal => remote_value.value > local_value.value,
+                    Ordering::Less => false,
+                };
+
+                // If our value is newer, discard the update
+                if !is_newer {
+                    continue;
                 }
+
+                // Update our value, which can be to a tombstone
+                local_value.clone_from(&remote_value);
+
+                // Remove it from our locally modified keys, in case we also tried to update it.
+                self.locally_modified_keys.remove(&remote_key);
+
+                // Push to the changes that we return.
+                changes.push((remote_key, remote_value.value));
             } else {
-                // If we don't have a local value for it already,
-                if remote_value.value.is_some() {
-                    // If the value is something, insert it
-                    self.underlying_map
-                        .insert(remote_key.clone(), remote_value.clone());
+                // If we don't have a local value for it already, insert it
+                self.underlying_map
+                    .insert(remote_key.clone(), remote_value.clone());
 
-                    // Push it to the changes that we return
+                // If the value is something, push it to the changes that we return
+                if remote_value.value.is_some() {
                     changes.push((remote_key, remote_value.value));
                 }
             };
-- 
2.43.0


From 7873cec8bdf6d2c27366535b2157a7b6c55c7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 09/25] fix: pace the queries for other brokers when discovery
 fails

---
 cdn-broker/src/tasks/broker/heartbeat.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/heartbeat.rs b/cdn-broker/src/tasks/broker/heartbeat.rs
index e7a8f5f..822dd35 100644
--- a/cdn-broker/src/tasks/broker/heartbeat.rs
+++ b/cdn-broker/src/tasks/broker/heartbeat.rs
@@ -55,12 +55,14 @@ impl<Def: RunDef> Inner<Def> {
                     Ok(Ok(brokers)) => brokers,
                     Ok(Err(err)) => {
                         error!("failed to get other brokers: {}", err);
-                        continue;
+
+                        // Try again with the next heartbeat
+                        HashSet::new()
                     }
                     Err(_) => {
                         // This is an important error
                         error!("timed out trying to get other brokers");
-                        continue;
+                        HashSet::new()
                     }
                 };
 
-- 
2.43.0


From afda022aca2bb2a8dfb24690f81c841429d26591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 10/25] fix: do not let a hanging whitelist query block
 evictions forever

---
 cdn-broker/src/tasks/broker/whitelist.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/whitelist.rs b/cdn-broker/src/tasks/broker/whitelist.rs
index 4fe1437..78990d1 100644
--- a/cdn-broker/src/tasks/broker/whitelist.rs
+++ b/cdn-broker/src/tasks/broker/whitelist.rs
@@ -9,7 +9,7 @@
 use std::{sync::Arc, time::Duration};
 
 use cdn_proto::{def::RunDef, discovery::DiscoveryClient};
-use tokio::time::sleep;
+use tokio::time::{sleep, timeout};
 
 use crate::Inner;
 
@@ -29,10 +29,13 @@ impl<Def: RunDef> Inner<Def> {
 
             // Make sure each user is still whitelisted
             for user in users {
-                if !discovery_client
-                    .check_whitelist(&user)
-                    .await
-                    .unwrap_or(true)
+                // (if we can't find out in time, we assume they are)
+                if !timeout(
+                    Duration::from_secs(5),
+                    discovery_client.check_whitelist(&user),
+                )
+                .await
+                .map_or(true, |result| result.unwrap_or(true))
                 {
                     // Kick the user off the network if they are not
                     self.connections
-- 
2.43.0


From 7203c690bb1da37256f7168fe4f8bad75d2b3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 11/25] fix: let a failed call drop only the connection it
 used, without waiting for a reconnection

---
 cdn-client/src/lib.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c379b7b..7e412ac 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -144,18 +144,26 @@ pub struct Config<C: ConnectionDef> {
     pub subscribed_topics: Vec<Topic>,
 }
 
-// Disconnects the current connection if an error was passed in and we're
-// not already reconnecting.
+// Disconnects the connection the operation was performed on if an error was passed in
+// and we're not already reconnecting.
 macro_rules! disconnect_on_error {
-    ($self:expr, $res: expr) => {
+    ($self:expr, $connection:expr, $res: expr) => {
         match $res {
             Ok(t) => Ok(t),
             Err(e) => {
-                // If we are not currently reconnecting, take the current connection
-                if $self.connecting_guard.available_permits() > 0 {
-                    // If we ran into an error, take the current connection.
+                // If we are not currently reconnecting, take the current connection. Holding the permit
+                // makes sure that no reconnection starts (and holds the lock) in the meantime
+                if let Ok(_permit) = $self.connecting_guard.try_acquire() {
+                    let mut current_connection = $self.connection.write().await;
+
+                    // If we ran into an error, take the connection, but not if it is a newer one already.
                     // This will only start reconnecting if we try to receive or send another message.
-                    $self.connection.write().await.take();
+                    if current_connection
+                        .as_ref()
+                        .is_some_and(|current| current.is_same(&$connection))
+                    {
+                        current_connection.take();
+                    }
                 }
 
                 Err(e)
@@ -297,7 +305,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.send_message(message).await)
+        disconnect_on_error!(self, connection, connection.send_message(message).await)
     }
 
     /// Receives a message from the underlying fallible connection. Reconnection logic is here,
@@ -311,7 +319,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.get_connection().await?;
 
         // Receive a message
-        disconnect_on_error!(self, connection.recv_message().await)
+        disconnect_on_error!(self, connection, connection.recv_message().await)
     }
 
     /// Returns only when the connection is fully initialized
@@ -453,7 +461,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.soft_close().await)
+        disconnect_on_error!(self, connection, connection.soft_close().await)
     }
 
     /// Shut down the client, closing the connection and aborting all tasks.
-- 
2.43.0


From e2ccb9b59f09fe3628645dfe3c247dff557ba799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 12/25] fix: close a client's connection even while other calls
 are using it

---
 cdn-client/src/lib.rs                     |  6 ++--
 cdn-proto/src/connection/protocols/mod.rs | 39 ++++++++++++++++++-----
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 7e412ac..4cac6a9 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -479,8 +479,10 @@ impl<C: ConnectionDef> Client<C> {
             reconnection_task.abort();
         }
 
-        // Take the connection
-        self.connection.write().await.take();
+        // Take the connection and close it, so that calls that are still using it fail
+        if let Some(connection) = self.connection.write().await.take() {
+            connection.close();
+        }
     }
 
     /// Returns whether or not the client has been manually closed
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index a88277d..f3bc81b 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -92,6 +92,18 @@ enum BytesOrSoftClose {
     SoftClose(oneshot::Sender<()>),
 }
 
+/// The receiving end of the channel with the messages to send. When it is dropped, we can't send
+/// anything anymore: closes the channel and discards what is still queued so that a pending
+/// soft close fails instead of waiting forever.
+struct SendQueue(Receiver<BytesOrSoftClose>);
+
+impl Drop for SendQueue {
+    fn drop(&mut self) {
+        self.0.close();
+        while self.0.try_recv().is_ok() {}
+    }
+}
+
 /// A reference to a delegated connection, containing the sender and
 /// receiver channels.
 #[derive(Clone)]
@@ -102,8 +114,9 @@ pub struct ConnectionRef {
     tasks: Arc<Vec<AbortHandle>>,
 }
 
-impl Drop for ConnectionRef {
-    fn drop(&mut self) {
+impl ConnectionRef {
+    /// Close the channels and abort all tasks
+    fn close(&self) {
         // Close the channels
         self.sender.close();
         self.receiver.close();
@@ -115,6 +128,12 @@ impl Drop for ConnectionRef {
     }
 }
 
+impl Drop for ConnectionRef {
+    fn drop(&mut self) {
+        self.close();
+    }
+}
+
 /// Implement a soft close for all types that implement `SoftClose`.
 /// This allows us to soft close a connection, allowing all messages to be sent
 /// before closing.
@@ -140,6 +159,12 @@ impl Connection {
         Arc::ptr_eq(&self.0, &other.0)
     }
 
+    /// Close the connection immediately, even if there are other clones of it. Pending sends
+    /// and receives fail. Does not make any guarantees about messages that are still queued.
+    pub fn close(&self) {
+        self.0.close();
+    }
+
     /// Converts a set of writer and reader streams into a connection.
     /// Under the hood, this spawns sending and receiving tasks.
     fn from_streams<
@@ -158,10 +183,13 @@ impl Connection {
                 |size| (bounded(size), bounded(size)),
             );
 
+        // Make sure nothing stays queued when the task below ends or is aborted
+        let receive_from_caller = SendQueue(receive_from_caller);
+
         // Spawn the task that receives from the caller and sends to the stream
         let sender_task = tokio::spawn(async move {
             // While we can successfully receive messages from the caller,
-            while let Ok(message) = receive_from_caller.recv().await {
+            while let Ok(message) = receive_from_caller.0.recv().await {
                 match message {
                     BytesOrSoftClose::Bytes(message) => {
                         // Write the message to the stream
@@ -186,11 +214,6 @@ impl Connection {
                     }
                 }
             }
-
-            // We can't send anything anymore. Close the channel and discard what is still
-            // queued so that a pending soft close fails instead of waiting forever
-            receive_from_caller.close();
-            while receive_from_caller.try_recv().is_ok() {}
         })
         .abort_handle();
 
-- 
2.43.0


From 789adc39ca02853e1ac3213251f0decaab03fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 13/25] fix: do not miss a reconnection that is just being
 started when closing the client

---
 cdn-client/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 4cac6a9..44cb4ba 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -212,6 +212,9 @@ impl<C: ConnectionDef> Client<C> {
     fn reconnect_if_needed(&self, possible_connection: Option<Connection>) -> Result<Connection> {
         let Some(connection) = possible_connection else {
             // If the connection is not initialized for one reason or another, try to reconnect
+            // Hold the lock on the task until it is stored, so that closing the client can't miss it
+            let mut current_reconnection_task = self.reconnection_task.lock();
+
             // Acquire the semaphore to ensure only one reconnection is happening at a time
             match Arc::clone(&self.connecting_guard).try_acquire_owned() {
                 Ok(permit) => {
@@ -246,7 +249,7 @@ impl<C: ConnectionDef> Client<C> {
                     }));
 
                     // Update the reconnection task
-                    *self.reconnection_task.lock() = Some(reconnection_task);
+                    *current_reconnection_task = Some(reconnection_task);
                 }
                 Err(TryAcquireError::Closed) => {
                     // The client has been manually closed
-- 
2.43.0


From 9fdcf2824bcead52bff89c113397a4246a1119fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 14/25] fix: close a connection that failed for every call that
 is using it

---
 cdn-client/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 44cb4ba..d17e9b7 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -158,11 +158,13 @@ macro_rules! disconnect_on_error {
 
                     // If we ran into an error, take the connection, but not if it is a newer one already.
                     // This will only start reconnecting if we try to receive or send another message.
+                    // Close it, so that other calls that are still using it fail as well.
                     if current_connection
                         .as_ref()
                         .is_some_and(|current| current.is_same(&$connection))
                     {
                         current_connection.take();
+                        $connection.close();
                     }
                 }
 
-- 
2.43.0


From 071b864018943a34c64747a4f22c704a11ce1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 15/25] fix: return from ensure_initialized only with a usable
 connection

---
 cdn-client/src/lib.rs | 114 ++++++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 49 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index d17e9b7..44b4c8b 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -27,7 +27,7 @@ use derive_more::derive::Deref;
 use parking_lot::Mutex;
 use tokio::{
     spawn,
-    sync::{RwLock, Semaphore, TryAcquireError},
+    sync::{OwnedSemaphorePermit, RwLock, Semaphore, TryAcquireError},
     time::{sleep, timeout},
 };
 use tracing::{info, warn};
@@ -206,6 +206,50 @@ impl<C: ConnectionDef> Client<C> {
         }))
     }
 
+    /// Start reconnecting in the background. The permit is held until we are reconnected.
+    fn start_reconnecting(&self, permit: OwnedSemaphorePermit) {
+        // Hold the lock until the task is stored, so that closing the client can't miss it
+        let mut reconnection_task = self.reconnection_task.lock();
+
+        // Do not start if the client has been manually closed in the meantime
+        if self.connecting_guard.is_closed() {
+            return;
+        }
+
+        let self_clone = self.0.clone();
+        *reconnection_task = Some(AbortOnDropHandle(spawn(async move {
+            let mut connection = self_clone.connection.write().await;
+
+            // Forever,
+            loop {
+                // Try to reconnect
+                match timeout(Duration::from_secs(10), self_clone.connect()).await {
+                    Ok(Ok(new_connection)) => {
+                        // We successfully reconnected
+                        *connection = Some(new_connection);
+                        break;
+                    }
+                    Ok(Err(err)) => {
+                        // We failed to reconnect
+                        // Sleep for 2 seconds and then try again
+                        warn!("Failed to connect to the CDN: {err}. Will retry in 2 seconds");
+                        sleep(Duration::from_secs(2)).await;
+                    }
+                    Err(_) => {
+                        // We timed out trying to reconnect
+                        warn!("Timed out while connecting to the CDN. Will retry in 2 seconds");
+                        sleep(Duration::from_secs(2)).await;
+                    }
+                }
+            }
+
+            // Release the connection before the permit, so that whoever waits for the
+            // permit is able to use it
+            drop(connection);
+            drop(permit);
+        })));
+    }
+
     /// Get the underlying connection if it exists, otherwise try to reconnect.
     ///
     /// # Errors
@@ -214,44 +258,11 @@ impl<C: ConnectionDef> Client<C> {
     fn reconnect_if_needed(&self, possible_connection: Option<Connection>) -> Result<Connection> {
         let Some(connection) = possible_connection else {
             // If the connection is not initialized for one reason or another, try to reconnect
-            // Hold the lock on the task until it is stored, so that closing the client can't miss it
-            let mut current_reconnection_task = self.reconnection_task.lock();
-
             // Acquire the semaphore to ensure only one reconnection is happening at a time
             match Arc::clone(&self.connecting_guard).try_acquire_owned() {
                 Ok(permit) => {
                     // We were the first to try reconnecting, spawn a reconnection task
-                    let self_clone = self.0.clone();
-                    let reconnection_task = AbortOnDropHandle(spawn(async move {
-                        let mut connection = self_clone.connection.write().await;
-
-                        // Forever,
-                        loop {
-                            // Try to reconnect
-                            match timeout(Duration::from_secs(10), self_clone.connect()).await {
-                                Ok(Ok(new_connection)) => {
-                                    // We successfully reconnected
-                                    *connection = Some(new_connection);
-                                    break;
-                                }
-                                Ok(Err(err)) => {
-                                    // We failed to reconnect
-                                    // Sleep for 2 seconds and then try again
-                                    warn!("Failed to connect to the CDN: {err}. Will retry in 2 seconds");
-                                    sleep(Duration::from_secs(2)).await;
-                                }
-                                Err(_) => {
-                                    // We timed out trying to reconnect
-                                    warn!("Timed out while connecting to the CDN. Will retry in 2 seconds");
-                                    sleep(Duration::from_secs(2)).await;
-                                }
-                            }
-                        }
-                        drop(permit);
-                    }));
-
-                    // Update the reconnection task
-                    *current_reconnection_task = Some(reconnection_task);
+                    self.start_reconnecting(permit);
                 }
                 Err(TryAcquireError::Closed) => {
                     // The client has been manually closed
@@ -332,22 +343,27 @@ impl<C: ConnectionDef> Client<C> {
     /// # Errors
     /// - If the connection has been closed
     pub async fn ensure_initialized(&self) -> Result<()> {
-        // Return early if the connecting guard is closed
-        if self.connecting_guard.is_closed() {
-            return Err(Error::Connection(
-                "client has been manually closed".to_string(),
-            ));
-        }
-
-        // If we are already connected, return
-        if self.try_get_connection().is_ok() {
-            return Ok(());
-        }
+        loop {
+            // Return if the connecting guard is closed
+            if self.connecting_guard.is_closed() {
+                return Err(Error::Connection(
+                    "client has been manually closed".to_string(),
+                ));
+            }
 
-        // Otherwise, wait to acquire the connecting guard
-        let _ = self.connecting_guard.acquire().await;
+            // If we are already connected, return
+            if self.try_get_connection().is_ok() {
+                return Ok(());
+            }
 
-        Ok(())
+            // Otherwise, wait to acquire the connecting guard. If there is still no connection
+            // (as the last one has just been lost), start reconnecting and wait again
+            if let Ok(permit) = Arc::clone(&self.connecting_guard).acquire_owned().await {
+                if self.connection.read().await.is_none() {
+                    self.start_reconnecting(permit);
+                }
+            }
+        }
     }
 
     /// Sends a pre-serialized message to the server, denoting recipients in the form
-- 
2.43.0


From 48087b23f522a7b2f8a3ce60b73f83f729dc44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 16/25] fix: do not send an empty topic list for a redundant
 subscription

---
 cdn-client/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 44b4c8b..033a346 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -419,6 +419,13 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| !subscribed_guard.contains(topic))
             .collect();
 
+        // If nothing would change, there is nothing to send: the server refuses
+        // an empty list by ending the session
+        if topics_to_send.is_empty() {
+            self.try_get_connection()?;
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Subscribe(topics_to_send.clone()))
@@ -453,6 +460,13 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| subscribed_guard.contains(topic))
             .collect();
 
+        // If nothing would change, there is nothing to send: the server refuses
+        // an empty list by ending the session
+        if topics_to_send.is_empty() {
+            self.try_get_connection()?;
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-- 
2.43.0


From 7c7f055ba816b7ffeb7d47ffd6939230016884a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 17/25] fix: replace the embedded whitelist in one transaction

---
 cdn-proto/src/discovery/embedded.rs | 52 ++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 3303cdf..7ef2c8f 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -12,7 +12,7 @@ use std::{
 
 use async_trait::async_trait;
 use rand::{rngs::StdRng, RngCore, SeedableRng};
-use sqlx::{query, query_as, sqlite::SqliteConnectOptions, QueryBuilder, Row, SqlitePool};
+use sqlx::{query, query_as, sqlite::SqliteConnectOptions, Row, SqlitePool};
 
 use super::{BrokerIdentifier, DiscoveryClient};
 use crate::{
@@ -323,31 +323,43 @@ impl DiscoveryClient for Embedded {
     /// # Errors
     /// - If the connection fails
     async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
-        // Create a query builder to atomically set the whitelist
-        let mut query_builder = QueryBuilder::new(
-            "
-        DROP TABLE IF EXISTS whitelist;     
-
-        CREATE TABLE IF NOT EXISTS whitelist (
-            user_public_key BYTEA PRIMARY KEY NOT NULL
-        );
-
-        INSERT INTO whitelist (user_public_key) ",
+        // Replace the whitelist in a transaction, so that nobody sees (and no failure
+        // leaves behind) anything but the old or the new one
+        let mut transaction = bail!(
+            self.pool.begin_with("BEGIN IMMEDIATE").await,
+            File,
+            "failed to begin whitelist transaction"
         );
 
-        // Push each value into `user_public_key`
-        query_builder.push_values(users, |mut b, user_public_key| {
-            b.push_bind(user_public_key.deref().clone());
-        });
+        // Replace the table by an empty one
+        for statement in [
+            "DROP TABLE IF EXISTS whitelist",
+            "CREATE TABLE whitelist (user_public_key BYTEA PRIMARY KEY NOT NULL)",
+        ] {
+            bail!(
+                query(statement).execute(&mut *transaction).await,
+                File,
+                "failed to clear whitelist"
+            );
+        }
 
-        // Build the query
-        let query = query_builder.build();
+        // Add each user (which may be listed more than once)
+        for user_public_key in users {
+            bail!(
+                query("INSERT OR IGNORE INTO whitelist (user_public_key) VALUES (?)")
+                    .bind(user_public_key.deref().clone())
+                    .execute(&mut *transaction)
+                    .await,
+                File,
+                "failed to set whitelist"
+            );
+        }
 
-        // Execute the query
+        // Make the new whitelist effective
         bail!(
-            query.execute(&self.pool).await,
+            transaction.commit().await,
             File,
-            "failed to set whitelist"
+            "failed to commit whitelist"
         );
 
         Ok(())
-- 
2.43.0


From 8223750e3b681f15cc3078a28f3d6112e4e7fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 18/25] fix: keep an empty whitelist in Redis from admitting
 everybody

---
 cdn-proto/src/discovery/redis.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6518f8d..ec3e4c8 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -275,7 +275,10 @@ impl DiscoveryClient for Redis {
             .atomic()
             // Delete the current whitelist, if it exists
             .cmd("DEL")
-            .arg(&["whitelist"]);
+            .arg(&["whitelist"])
+            // Remember that it has been set: a set without members does not exist
+            .cmd("SET")
+            .arg(&["whitelist/initialized", "1"]);
 
         for user in users {
             pipeline
@@ -301,10 +304,10 @@ impl DiscoveryClient for Redis {
     /// # Errors
     /// - If the connection fails
     async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
-        // If the set does not exist, return true. The whitelist is not yet initialized
+        // If the whitelist was never set, return true. It is not yet initialized
         if !bail!(
-            redis::cmd("SCARD")
-                .arg("whitelist")
+            redis::cmd("EXISTS")
+                .arg(&["whitelist", "whitelist/initialized"])
                 .query_async(&mut self.underlying_connection)
                 .await,
             Connection,
-- 
2.43.0


From c5e0c83422093c2e8847e3ecc627dc3327897fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 19/25] fix: never issue a permit that reads as a status code

---
 cdn-proto/src/discovery/embedded.rs | 8 +++++++-
 cdn-proto/src/discovery/redis.rs    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 7ef2c8f..9fa1d51 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -236,7 +236,13 @@ impl DiscoveryClient for Embedded {
     ) -> Result<u64> {
         // Create random permit number
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u32();
+        let mut rng = StdRng::from_entropy();
+        let mut permit = rng.next_u32();
+
+        // 0 and 1 stand for the status of an authentication
+        while permit <= 1 {
+            permit = rng.next_u32();
+        }
 
         #[cfg(not(feature = "global-permits"))]
         let broker = for_broker.to_string();
diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index ec3e4c8..5ef4c5e 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -212,7 +212,13 @@ impl DiscoveryClient for Redis {
     ) -> Result<u64> {
         // Create random permit number
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u64();
+        let mut rng = StdRng::from_entropy();
+        let mut permit = rng.next_u64();
+
+        // 0 and 1 stand for the status of an authentication
+        while permit <= 1 {
+            permit = rng.next_u64();
+        }
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-- 
2.43.0


From ca3caadf5ba4a34e6a7e81145b28f39fb390987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 20/25] fix: skip a broker that expires while the least
 connected one is chosen

---
 cdn-proto/src/discovery/redis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 5ef4c5e..af5be17 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -140,7 +140,7 @@ impl DiscoveryClient for Redis {
 
         for broker in brokers {
             // Get the number of connections the broker has
-            let num_connections: u64 = bail!(
+            let num_connections: Option<u64> = bail!(
                 redis::cmd("GET")
                     .arg(format!("{broker}/num_connections"))
                     .query_async(&mut self.underlying_connection)
@@ -149,6 +149,11 @@ impl DiscoveryClient for Redis {
                 "failed to connect to Redis"
             );
 
+            // Skip the broker if it has expired in the meantime
+            let Some(num_connections) = num_connections else {
+                continue;
+            };
+
             // Get the number of permits the broker has
             let num_permits: u64 = bail!(
                 redis::cmd("SCARD")
-- 
2.43.0


From 326b45be926fa79b0ffcb0ad609c41a7ef03446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 21/25] fix: count outstanding permits when choosing a broker
 through Redis

---
 cdn-proto/src/discovery/redis.rs | 49 +++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index af5be17..6464bc8 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -227,18 +227,33 @@ impl DiscoveryClient for Redis {
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("SET");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("SET");
         #[cfg(not(feature = "global-permits"))]
         // Per-broker permit
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
         // Global permit
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+        pipeline
+            .arg(public_key)
+            .arg(&["EX", &expiry.as_secs().to_string()]);
+
+        // Count the permit towards the broker's load for as long as it is outstanding
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SADD")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .cmd("EXPIREMEMBER")
+            .arg(&[
+                format!("{for_broker}/permits"),
+                permit.to_string(),
+                expiry.as_secs().to_string(),
+            ]);
 
         // Issue the permit
         bail!(
-            cmd.arg(public_key)
-                .arg(&["EX", &expiry.as_secs().to_string()])
+            pipeline
                 .query_async::<()>(&mut self.underlying_connection)
                 .await,
             Connection,
@@ -261,18 +276,30 @@ impl DiscoveryClient for Redis {
     ) -> Result<Option<Vec<u8>>> {
         // Remove this permit verifying it exists for either one broker or
         // all brokers (with the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("GETDEL");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("GETDEL");
         #[cfg(not(feature = "global-permits"))]
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+
+        // It no longer counts towards the broker's load
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SREM")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .ignore();
 
         // Remove the permit
-        Ok(bail!(
-            cmd.query_async(&mut self.underlying_connection).await,
+        let (public_key,) = bail!(
+            pipeline
+                .query_async::<(Option<Vec<u8>>,)>(&mut self.underlying_connection)
+                .await,
             Connection,
             "failed to connect to Redis"
-        ))
+        );
+
+        Ok(public_key)
     }
 
     /// Atomically set the list of whitelisted users
-- 
2.43.0


From 9feaaed28cfab59c6b12c64f460e8147b9cece5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 22/25] fix: don't panic on the biggest version another broker
 can send

---
 cdn-broker/src/connections/versioned_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 4ceebe9..3470e39 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -86,8 +86,8 @@ impl<K: PartialEq + Eq + Hash + Clone + Debug, V: Clone + PartialOrd + Debug, C:
                 let entry = entry.get_mut();
 
                 // Add one to the version. A previous local modification might already have been
-                // sent as part of the full map
-                entry.version += 1;
+                // sent as part of the full map. It may be any number that somebody has sent us
+                entry.version = entry.version.saturating_add(1);
 
                 // Set the version equal to the one we supplied
                 entry.value = v;
-- 
2.43.0


From b4585d91ff54aaa06452c4205f2da9db29443d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 23/25] fix: issue the permit for the key that was verified

---
 cdn-proto/src/connection/auth/marshal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 088625f..915361e 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -117,13 +117,14 @@ impl<R: RunDef> MarshalAuth<R> {
             }
         };
 
-        // Generate and issue a permit for said broker
+        // Generate and issue a permit for said broker, for the key that we have verified and not
+        // for what the user has sent, which may be another encoding of it
         let permit = match discovery_client
             .issue_permit(
                 #[cfg(not(feature = "global-permits"))]
                 &broker_with_least_connections,
                 Duration::from_secs(30),
-                auth_message.public_key,
+                public_key.clone(),
             )
             .await
         {
-- 
2.43.0


From 55c867030ef7156d00bbccb8d5dfe22e51a29cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 24/25] fix: cut off a peer that stops reading also while a
 message is flushed

Over TCP+TLS the writes only fill the buffer of the encryption layer, and it is the flush that
waits for the remote. It had no time limit, so a peer that does not read was never cut off and
everything sent to it was queued without bound.
---
 cdn-proto/src/connection/protocols/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index f3bc81b..742fe20 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -199,10 +199,18 @@ impl Connection {
                         };
 
                         // Flush the writer
-                        // Is a no-op for everything but TCP+TLS
-                        if let Err(err) = writer.flush().await {
-                            warn!("failed to flush writer: {:?}", err);
-                            break;
+                        // Is a no-op for everything but TCP+TLS, which buffers what was written above
+                        // and waits here for the remote to read it
+                        match timeout(Duration::from_secs(5), writer.flush()).await {
+                            Ok(Ok(())) => {}
+                            Ok(Err(err)) => {
+                                warn!("failed to flush writer: {:?}", err);
+                                break;
+                            }
+                            Err(_) => {
+                                warn!("timed out trying to flush writer");
+                                break;
+                            }
                         };
                     }
                     BytesOrSoftClose::SoftClose(result_sender) => {
-- 
2.43.0


From 8ca183242cff4dc18809038ab555228e00af7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:06 +0000
Subject: [PATCH 25/25] fix: end the connection to a peer that stops reading,
 also over TLS

---
 cdn-proto/src/connection/protocols/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 742fe20..35a6460 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -15,7 +15,7 @@ use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     sync::oneshot,
     task::AbortHandle,
-    time::timeout,
+    time::{timeout, Instant},
 };
 use tracing::warn;
 
@@ -186,15 +186,25 @@ impl Connection {
         // Make sure nothing stays queued when the task below ends or is aborted
         let receive_from_caller = SendQueue(receive_from_caller);
 
+        // Lets the task below end the connection if the remote stops reading
+        let received = receive_from_task.clone();
+
         // Spawn the task that receives from the caller and sends to the stream
         let sender_task = tokio::spawn(async move {
             // While we can successfully receive messages from the caller,
             while let Ok(message) = receive_from_caller.0.recv().await {
                 match message {
                     BytesOrSoftClose::Bytes(message) => {
+                        let started = Instant::now();
+
                         // Write the message to the stream
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
+
+                            // If we timed out, fail what is being received as well
+                            if started.elapsed() >= Duration::from_secs(5) {
+                                received.close();
+                            }
                             break;
                         };
 
@@ -209,6 +219,7 @@ impl Connection {
                             }
                             Err(_) => {
                                 warn!("timed out trying to flush writer");
+                                received.close();
                                 break;
                             }
                         };
-- 
2.43.0

