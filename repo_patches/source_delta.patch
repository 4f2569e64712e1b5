From 217fb0c196bd985217175160c2192621f383d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 01/16] fix: reject non-canonical integer arguments (+5, -0,
 -05)

---
 src/common/core/decode_argument.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..5946257 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -70,11 +70,13 @@ macro_rules! impl_DecodeArgument_for_integer {
 
         impl<'a> DecodeArgument<'a> for $t {
             fn decode_argument(arg: &'a [u8]) -> Option<Self> {
-                //forbid leading zeroes
-                if arg.len() == 0 {
+                //only digits are allowed after the optional minus sign (`parse()` below would
+                //also accept a plus sign), and neither leading zeroes nor "-0"
+                let digits = arg.strip_prefix(b"-").unwrap_or(arg);
+                if digits.first().map_or(true, |ch| !ch.is_ascii_digit()) {
                     return None;
                 }
-                if arg != b"0" && arg[0] == b'0' {
+                if arg != b"0" && digits[0] == b'0' {
                     return None;
                 }
 
-- 
2.43.0


From 299ebf6dc32152aa496f45f85eb488203d27386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 02/16] fix: do not overflow on ClientIDSuffix with the largest
 index

---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..d1f19eb 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (u64::from(num) + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = u64::from(num) + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From 84b101e168ebf4fe4722129ae6a672cf106b65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 03/16] fix: report the exact size of MessageIterator in
 size_hint()

---
 src/common/core/msg/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/core/msg/mod.rs b/src/common/core/msg/mod.rs
index 641fcd7..1d366c4 100644
--- a/src/common/core/msg/mod.rs
+++ b/src/common/core/msg/mod.rs
@@ -346,6 +346,10 @@ impl<'s> Iterator for MessageIterator<'s> {
     fn next(&mut self) -> Option<Self::Item> {
         self.next_or_error().unwrap_or(None)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.remaining_items, Some(self.remaining_items))
+    }
 }
 
 impl<'s> core::iter::ExactSizeIterator for MessageIterator<'s> {
-- 
2.43.0


From b60df383f688277bfa656a306a81858a59642a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 04/16] fix: unregister clients on core1.client-end

---
 src/server/core/msg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..160cc10 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,13 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //unregister all clients at or below this client ID
+                let d = conn.dispatch();
+                d.application()
+                    .unregister_clients(ClientSelector::AtOrBelow(msg.client_id));
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From 55e2a7b1b24656be77c8d28bb929d2169c6fa8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 05/16] fix: do not recurse once per message or parse error in
 Connection::handle_incoming

---
 src/server/connection.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..f1ea23e 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,12 +171,22 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
-            use server::StdoutConnector;
-            use ConnectionState::*;
+        use server::StdoutConnector;
+        use ConnectionState::*;
+        //This is a loop because handling a message (or parse error) may have changed into a
+        //different state, so we need to disambiguate again for the remaining contents of `buf`.
+        while !buf.contents().is_empty() {
             match self.state {
-                Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
-                Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
+                Handshake => {
+                    if !self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()) {
+                        return;
+                    }
+                }
+                Msgio(_) => {
+                    if !self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()) {
+                        return;
+                    }
+                }
                 Stdin(_) => {
                     //receiving anything on stdin is an error, so close the connection (we might
                     //have to relax this in the future depending on how insistent legacy clients
@@ -191,12 +201,17 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
                 }
-                Teardown => {}
+                Teardown => return,
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Handles the first message (or error) in `buf`. Returns false if there is no full message yet.
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -234,7 +249,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return false;
             }
             Err(e) => {
                 match handler {
@@ -261,8 +276,6 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 buf.discard(bytes_to_discard);
             }
         }
-        //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        true
     }
 }
-- 
2.43.0


From 813778b638a189aa4acd620b8829897f033c4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 06/16] fix: discard received bytes without moving the rest of
 the buffer

---
 src/server/tokio/receiver.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/server/tokio/receiver.rs b/src/server/tokio/receiver.rs
index 9c9cec6..7dd01e1 100644
--- a/src/server/tokio/receiver.rs
+++ b/src/server/tokio/receiver.rs
@@ -15,13 +15,7 @@ impl server::ReceiveBuffer for bytes::BytesMut {
         &self[..]
     }
     fn discard(&mut self, consumed: usize) {
-        //TODO: use memmove for efficiency
-        if consumed > 0 {
-            for idx in consumed..self.len() {
-                self[idx - consumed] = self[idx];
-            }
-            self.truncate(self.len() - consumed);
-        }
+        bytes::Buf::advance(self, consumed);
     }
 }
 
-- 
2.43.0


From f777dae5d459837654ef044079f79491a6f6c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 07/16] fix: do not reply on a connection that its message
 handler has torn down

---
 src/server/connection.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index f1ea23e..6fe3e15 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -225,6 +225,8 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     (Err(_), HandlerObj::HandshakeHandler(_)) => {
                         self.set_state(ConnectionState::Teardown);
                     }
+                    //no error handling if the handler decided to tear down this connection
+                    (Err(_), _) if !self.state.can_receive_messages() => {}
                     //error handling according to [vt6/foundation, sect. 3.3.2]
                     (Err(InvalidMessage), HandlerObj::MessageHandler(_)) => {
                         self.enqueue_message(&Nope(msg.parsed_type()));
-- 
2.43.0


From cf34e1f008d5687c9f8dbc696c608d9f016c2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 08/16] fix: tear down the connection instead of panicking when
 a reply is too long

---
 src/server/tokio/dispatch.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..7a33826 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -351,8 +351,19 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legimitately too long (this can be provoked by the client, e.g. by sending a message
+            //with an overlong type), so we cannot continue on this connection
+            if send_buffer.fill_if_ok(|buf| msg.encode(buf)).is_err() {
+                std::mem::drop(tx);
+                conn.set_state(server::ConnectionState::Teardown);
+                let e = std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "outgoing message exceeds the maximum message length",
+                );
+                let n = server::Notification::ConnectionIOError(e.into());
+                self.0.app.notify(&n);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From f8f0beae30cb2fd244bde681ca09924a9d8d3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 09/16] fix: create the transmitter entry of a connection
 together with its pool entry

---
 src/server/tokio/dispatch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 7a33826..4a3c7d6 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -84,14 +84,16 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
 
+        //the pool entry and the TX entry need to become visible at the same time, so we are still
+        //holding the pool lock
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
             notify: tx_notify.clone(),
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+        std::mem::drop(pool); //release the write lock
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
-- 
2.43.0


From 5bd2387757a854d795571b905c1a3d960215785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 10/16] fix: notify about a new connection before it can be
 closed

---
 src/server/tokio/dispatch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 4a3c7d6..a8511c9 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -93,6 +93,9 @@ impl<A: server::Application> InnerDispatch<A> {
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+
+        //this notification must come before anyone can tear down this connection again
+        self.app.notify(&server::Notification::ConnectionOpened);
         std::mem::drop(pool); //release the write lock
 
         (conn_id, rx_ar, tx_ar, tx_notify)
@@ -258,7 +261,6 @@ impl<A: server::Application> Dispatch<A> {
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
                 my::spawn_receiver(self.0.clone(), rx_abort, conn_id, stream_reader);
                 my::spawn_transmitter(self.0.clone(), tx_abort, conn_id, stream_writer, tx_notify);
-                self.0.app.notify(&server::Notification::ConnectionOpened);
             }
         };
         match Abortable::new(accept_future, ar).await {
-- 
2.43.0


From 53943274641ad65a9de1eda9bb58e29c51db0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 11/16] fix: do not strand broadcasts that are enqueued while
 the pool lock is being released

---
 src/server/tokio/dispatch.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index a8511c9..da13d6c 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -97,6 +97,7 @@ impl<A: server::Application> InnerDispatch<A> {
         //this notification must come before anyone can tear down this connection again
         self.app.notify(&server::Notification::ConnectionOpened);
         std::mem::drop(pool); //release the write lock
+        self.execute_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
@@ -107,7 +108,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -197,6 +198,19 @@ impl<A: server::Application> InnerDispatch<A> {
             }
         }
     }
+
+    fn execute_pending_broadcasts(self: &Arc<Self>) {
+        //This function is called after enqueueing a broadcast, and after releasing a
+        //`self.pool.write()` lock (because anyone trying to execute a broadcast while we were
+        //holding that lock had to leave it in the queue). If someone else is holding that lock
+        //now, they will in turn call this function when they're done.
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool_lock) => self.do_maintenance(&mut pool_lock),
+                Err(_) => return,
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -209,13 +223,15 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    //This is only None while being dropped.
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>,
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -224,9 +240,11 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+        }
+        self.inner.execute_pending_broadcasts();
     }
 }
 
@@ -309,9 +327,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.execute_pending_broadcasts();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From f3307e49648d69f948f2dec0b1d6262c80365c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 12/16] fix: honor shutdown() when the listener is not running
 yet

---
 src/server/tokio/dispatch.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index da13d6c..0427ac6 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -38,7 +38,9 @@ pub(crate) struct InnerDispatch<A: server::Application> {
     //can only be obtained by holding the `self.pool` lock).
     path: std::path::PathBuf,
     pub(crate) app: A,
-    abort: Mutex<Option<AbortHandle>>,
+    //The AbortRegistration is taken out by `Dispatch::run_listener()`. It exists from the start, so
+    //that a shutdown request will be honored even if the listener is not running yet.
+    abort: Mutex<(AbortHandle, Option<AbortRegistration>)>,
     pool: RwLock<ConnectionPool<A>>,
     tx: RwLock<HashMap<u64, TxConnector>>,
     //This #[allow] is here because factoring out `type Broadcast<A>` or something like that does
@@ -49,10 +51,11 @@ pub(crate) struct InnerDispatch<A: server::Application> {
 
 impl<A: server::Application> InnerDispatch<A> {
     fn new(path: std::path::PathBuf, app: A) -> Arc<Self> {
+        let (ah, ar) = AbortHandle::new_pair();
         Arc::new(InnerDispatch {
             path,
             app,
-            abort: Mutex::new(None),
+            abort: Mutex::new((ah, Some(ar))),
             pool: RwLock::new(ConnectionPool {
                 conns: HashMap::new(),
                 next_connection_id: 0,
@@ -268,8 +271,14 @@ impl<A: server::Application> Dispatch<A> {
         let listener = tokio::net::UnixListener::bind(&self.0.path)?;
 
         //set up an AbortHandle that shutdown() can use to intercept our loop
-        let (ah, ar) = AbortHandle::new_pair();
-        *(self.0.abort.lock().unwrap()) = Some(ah);
+        let ar = {
+            let mut abort = self.0.abort.lock().unwrap();
+            abort.1.take().unwrap_or_else(|| {
+                let (ah, ar) = AbortHandle::new_pair();
+                abort.0 = ah;
+                ar
+            })
+        };
 
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
@@ -301,10 +310,7 @@ impl<A: server::Application> Dispatch<A> {
     ///Ask the event loop to shutdown. After this call, the `self.run_listener()` future will
     ///resolve to `Ok(())` once all client connections and the server socket have been dismantled.
     pub fn shutdown(&self) {
-        use std::ops::Deref;
-        if let Some(ref handle) = self.0.abort.lock().unwrap().deref() {
-            handle.abort();
-        }
+        self.0.abort.lock().unwrap().0.abort();
     }
 }
 
-- 
2.43.0


From ec99751e439dab3f833adc35d146796504d4531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 13/16] fix: tear down all connections on shutdown

---
 src/server/tokio/dispatch.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 0427ac6..36df3de 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -296,11 +296,17 @@ impl<A: server::Application> Dispatch<A> {
             Err(Aborted) => {}
         };
 
-        //tell all receiver/transmitter jobs to quit it
-        for conn in self.0.pool.write().unwrap().conns.values() {
-            conn.rx_abort.abort();
-            conn.tx_abort.abort();
+        //tear down all connections (this tells all receiver/transmitter jobs to quit it)
+        let mut pool = self.0.pool.write().unwrap();
+        let all_conn_ids: Vec<_> = pool.conns.keys().copied().collect();
+        for conn_id in all_conn_ids {
+            if let Some(entry) = pool.conns.get_mut(&conn_id) {
+                entry.conn.set_state(server::ConnectionState::Teardown);
+            }
+            self.0.do_maintenance_on_conn(&mut pool, conn_id);
         }
+        std::mem::drop(pool); //release the write lock
+        self.0.execute_pending_broadcasts();
 
         //clean up the server socket
         std::mem::drop(listener);
-- 
2.43.0


From 4d8e45d882d781b57cdfa1261d2345d66e355f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 14/16] hooks: lock wrappers for the tokio dispatch under
 cfg(vt6_verif)

---
 src/lib.rs                   |   5 ++
 src/server/tokio/dispatch.rs |   7 +-
 src/verif.rs                 | 128 +++++++++++++++++++++++++++++++++++
 3 files changed, 139 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index c766ccb..8386f9f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,8 @@
 *******************************************************************************/
 
 #![cfg_attr(all(not(test), not(feature = "use_std")), no_std)]
+//the cfg(vt6_verif) is only set by verification harnesses
+#![allow(unknown_lints, unexpected_cfgs)]
 
 /*!
 
@@ -51,3 +53,6 @@ pub mod msg;
 #[cfg(feature = "use_std")]
 ///Implementation parts for VT6 servers (terminals or shell wrappers proxying as a terminal).
 pub mod server;
+#[cfg(vt6_verif)]
+#[allow(missing_docs)]
+pub mod verif;
diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 36df3de..e47c042 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -9,9 +9,14 @@ use crate::server;
 use crate::server::tokio as my;
 use futures::future::{AbortHandle, AbortRegistration, Abortable, Aborted};
 use std::collections::HashMap;
-use std::sync::{Arc, Mutex, RwLock, RwLockWriteGuard};
+use std::sync::{Arc, RwLockWriteGuard};
 use tokio::sync::Notify;
 
+#[cfg(vt6_verif)]
+use crate::verif::{Mutex, RwLock};
+#[cfg(not(vt6_verif))]
+use std::sync::{Mutex, RwLock};
+
 struct ConnectionPoolEntry<A: server::Application> {
     conn: server::Connection<A, Dispatch<A>>,
     rx_abort: AbortHandle,
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..8d63624
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,128 @@
+/*******************************************************************************
+* Copyright 2020 Stefan Majewsky <majewsky@gmx.net>
+* SPDX-License-Identifier: Apache-2.0
+* Refer to the file "LICENSE" for details.
+*******************************************************************************/
+
+//! Only compiled with `--cfg vt6_verif`. Wraps the std locks such that a verification harness can
+//! observe and delay the acquisition of locks in order to explore thread schedules. The guards are
+//! those of std, and everything that is not wrapped derefs to the std type.
+
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicPtr, Ordering};
+use std::sync::{LockResult, MutexGuard, RwLockReadGuard, RwLockWriteGuard, TryLockResult};
+
+///What a thread is about to do (`Before`) or has done (`After`) with the lock at this address.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Event {
+    Before(Op, usize),
+    After(Op, usize, bool),
+}
+
+///A locking operation.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Op {
+    Lock,
+    TryLock,
+    Read,
+    TryRead,
+    Write,
+    TryWrite,
+}
+
+static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
+
+///Installs a function that is called before and after each locking operation.
+pub fn set_hook(f: fn(Event)) {
+    HOOK.store(f as *mut (), Ordering::SeqCst);
+}
+
+fn hook(e: Event) {
+    let p = HOOK.load(Ordering::SeqCst);
+    if !p.is_null() {
+        //this pointer can only have come from set_hook()
+        let f: fn(Event) = unsafe { std::mem::transmute(p) };
+        f(e);
+    }
+}
+
+fn around<G, E>(op: Op, addr: usize, f: impl FnOnce() -> Result<G, E>) -> Result<G, E> {
+    hook(Event::Before(op, addr));
+    let r = f();
+    hook(Event::After(op, addr, r.is_ok()));
+    r
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(t: T) -> Self {
+        Self(std::sync::Mutex::new(t))
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        around(Op::Lock, self.addr(), || self.0.lock())
+    }
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        around(Op::TryLock, self.addr(), || self.0.try_lock())
+    }
+}
+
+impl<T> Deref for Mutex<T> {
+    type Target = std::sync::Mutex<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for Mutex<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub fn new(t: T) -> Self {
+        Self(std::sync::RwLock::new(t))
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        around(Op::Read, self.addr(), || self.0.read())
+    }
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        around(Op::TryRead, self.addr(), || self.0.try_read())
+    }
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        around(Op::Write, self.addr(), || self.0.write())
+    }
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+        around(Op::TryWrite, self.addr(), || self.0.try_write())
+    }
+}
+
+impl<T> Deref for RwLock<T> {
+    type Target = std::sync::RwLock<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for RwLock<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
-- 
2.43.0


From dad4a35ed2821ef58864e14a5f76b99a0ba03ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 15/16] fix: do not close FD 60 in Environment::discover() if
 it is not open

Without a VT6 terminal, discover() wrapped the closed FD in a File whose drop
then closed it. With debug assertions, std aborts the process for that
("IO Safety violation: owned file descriptor already closed").
---
 src/client/env.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/client/env.rs b/src/client/env.rs
index 663cd8d..6198088 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -56,6 +56,15 @@ impl Environment {
             has_vt6_terminal: true,
         };
 
+        //If FD 60 is not open, we must not wrap it in a File since that would close an FD that we do
+        //not own, which aborts the process when debug assertions are enabled.
+        //
+        //SAFETY: this libc function does not touch any memory
+        if unsafe { libc::fcntl(60, libc::F_GETFD) } == -1 {
+            env.has_vt6_terminal = false;
+            return Ok(env);
+        }
+
         //SAFETY: we need to call this unsafe trait method to obtain a File handle
         let mut f = unsafe { File::from_raw_fd(60) };
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
-- 
2.43.0


From 5d599d5eccfd49c099284e8fca372a47e58313c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 16/16] fix: retry interrupted reads in Environment::discover()

A signal arriving while discover() was waiting for the parent-hello message
made it fail and close FD 60, losing the message for good.
---
 src/client/env.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/client/env.rs b/src/client/env.rs
index 6198088..32c5ddd 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -70,7 +70,7 @@ impl Environment {
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
 
         //the first read on FD 60 decides if we are on a VT6 terminal or not
-        match f.read(&mut env.buf) {
+        match read_some(&mut f, &mut env.buf) {
             Ok(filled) => env.filled = filled,
             Err(e) => {
                 if matches!(e.raw_os_error(), Some(errno) if errno == libc::EBADF || errno == libc::EINVAL)
@@ -85,7 +85,7 @@ impl Environment {
 
         //continue reading until we have a full parent-hello message or EOF or parse error
         while matches!(msg::Message::parse(&env.buf[0..env.filled]), Err(e) if e.is_incomplete()) {
-            let filled = f.read(&mut env.buf[env.filled..])?;
+            let filled = read_some(&mut f, &mut env.buf[env.filled..])?;
             env.filled += filled;
             if filled == 0 {
                 //we reached EOF on FD 60, so no more reads necessary
@@ -111,6 +111,16 @@ impl Environment {
     }
 }
 
+///Like `f.read(buf)`, but does not fail when interrupted by a signal.
+fn read_some(f: &mut File, buf: &mut [u8]) -> std::io::Result<usize> {
+    loop {
+        match f.read(buf) {
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result,
+        }
+    }
+}
+
 ///Provides access to the data contained in [struct Environment](struct.Environment.html).
 ///
 ///Unlike `Environment`, which is a singleton by design, instances of this type can be cloned and
-- 
2.43.0

