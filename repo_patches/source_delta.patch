From 2fe82d79e202182d3a32691a4df187dad2be1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:40 +0000
Subject: [PATCH 01/16] hook: small receive buffer increment behind the verif
 feature

---
 protosocket-connection/Cargo.toml        | 5 +++++
 protosocket-connection/src/connection.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/protosocket-connection/Cargo.toml b/protosocket-connection/Cargo.toml
index 3e3ae1b..92ff445 100644
--- a/protosocket-connection/Cargo.toml
+++ b/protosocket-connection/Cargo.toml
@@ -10,6 +10,11 @@ repository.workspace = true
 keywords.workspace = true
 categories.workspace = true
 
+[features]
+# Scales internal batch constants down so that bounded verification reaches their boundaries.
+# Never enable this in a production build.
+verif = []
+
 [dependencies]
 bytes                   = { workspace = true }
 futures                 = { workspace = true }
diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 36e817c..3e28915 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -156,7 +156,10 @@ where
 
     /// ensure buffer state and read from the inbound stream
     fn read_inbound(&mut self) -> ReadBufferState {
+        #[cfg(not(feature = "verif"))]
         const BUFFER_INCREMENT: usize = 2 << 20;
+        #[cfg(feature = "verif")]
+        const BUFFER_INCREMENT: usize = 4;
         if self.receive_buffer.len() < self.max_buffer_length
             && self.receive_buffer.len() - self.receive_buffer_slice_end < BUFFER_INCREMENT
         {
-- 
2.43.0


From 2c8dedc861a8fb94f0826ddc6b71326eac6d4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:40 +0000
Subject: [PATCH 02/16] fix: wake to poll the outbound channel after a full
 send buffer drains

---
 protosocket-connection/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 3e28915..cf96132 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -535,6 +535,7 @@ where
     }
 
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
+        let send_was_full = self.room_in_send_buffer() == 0;
         loop {
             break if !self.send_buffer.is_empty() {
                 // the write half of the stream is only considered for readiness when there is something to write.
@@ -574,6 +575,11 @@ where
                 log::trace!("nothing to send");
             };
         }
+        if send_was_full && 0 < self.room_in_send_buffer() {
+            // While the send buffer was full, the outbound message channel was not polled and this task is
+            // not registered with it. There is room now, so make sure the task looks at the channel again.
+            context.waker().wake_by_ref();
+        }
         None
     }
 }
-- 
2.43.0


From 7f5d7e9cb413be5cd39a5e7065d1ba74b7351eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:40 +0000
Subject: [PATCH 03/16] fix: wake to read again after rotating or skipping
 frees a full receive buffer

---
 protosocket-connection/src/connection.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index cf96132..a75beb4 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -491,17 +491,20 @@ where
             return None;
         }
         let start_len = self.inbound_messages.len();
+        let receive_was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
         match self.read_inbound_messages_into_read_queue() {
             ReadBufferState::WaitingForMore => {
                 log::trace!("read queue is still open");
                 let new_len = self.inbound_messages.len();
-                if start_len != new_len {
+                let receive_has_room = self.receive_buffer_slice_end < self.max_buffer_length;
+                if start_len != new_len || (receive_was_full && receive_has_room) {
                     // If you don't wake here, then when the read side gets full, you won't be registered for network
                     // activity wakes.
                     // You can skip this wake when you are deserializing a large message, because that is waiting
                     // for more inbound data to arrive. You are only WaitingForMore when you're mid-message,
                     // and if you've just got the one message you can wait for the network.
-                    // There's no deserializer progress to report if you didn't deserialize anything.
+                    // There's no deserializer progress to report if you didn't deserialize anything - except when
+                    // the receive buffer was full, because then network readability was not polled this time.
                     context.waker().wake_by_ref();
                 }
             }
-- 
2.43.0


From 29a3a7776714eaa834605d7b80c9371a862474ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:20 +0000
Subject: [PATCH 04/16] fix: a skipped or incomplete message that fills the
 receive buffer rotates or disconnects, never hangs

---
 protosocket-connection/src/connection.rs | 58 +++++++++++++++---------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index a75beb4..cf52500 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -205,29 +205,9 @@ where
                 }
                 Err(e) => match e {
                     DeserializeError::IncompleteBuffer { next_message_size } => {
-                        if self.max_buffer_length < next_message_size {
-                            log::error!("tried to receive message that is too long. Resetting connection - max: {}, requested: {}", self.max_buffer_length, next_message_size);
+                        if !self.make_room_for_message(next_message_size) {
                             return ReadBufferState::Disconnected;
                         }
-                        if self.max_buffer_length
-                            < self.receive_buffer_slice_end + next_message_size
-                        {
-                            let length =
-                                self.receive_buffer_slice_end - self.receive_buffer_start_offset;
-                            log::debug!(
-                                "rotating {}b of buffer to make room for next message {}b",
-                                length,
-                                next_message_size
-                            );
-                            self.receive_buffer_swap.clear();
-                            self.receive_buffer_swap.extend_from_slice(
-                                &self.receive_buffer[self.receive_buffer_start_offset
-                                    ..self.receive_buffer_slice_end],
-                            );
-                            std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
-                            self.receive_buffer_start_offset = 0;
-                            self.receive_buffer_slice_end = length;
-                        }
                         log::debug!("waiting for the next message of length {next_message_size}");
                         break ReadBufferState::WaitingForMore;
                     }
@@ -240,6 +220,9 @@ where
                             < distance
                         {
                             log::trace!("cannot skip yet, need to read more. Skipping: {distance}, remaining:{}", self.receive_buffer_slice_end - self.receive_buffer_start_offset);
+                            if !self.make_room_for_message(distance) {
+                                return ReadBufferState::Disconnected;
+                            }
                             break ReadBufferState::WaitingForMore;
                         }
                         log::debug!("skipping message of length {distance}");
@@ -258,6 +241,39 @@ where
         state
     }
 
+    /// Make room to receive the rest of the message at the front of the receive buffer.
+    ///
+    /// Returns false if the message can not be received within max_buffer_length.
+    fn make_room_for_message(&mut self, message_size: usize) -> bool {
+        if self.max_buffer_length < message_size {
+            log::error!("tried to receive message that is too long. Resetting connection - max: {}, requested: {}", self.max_buffer_length, message_size);
+            return false;
+        }
+        if self.max_buffer_length <= self.receive_buffer_slice_end
+            || self.max_buffer_length < self.receive_buffer_slice_end + message_size
+        {
+            let length = self.receive_buffer_slice_end - self.receive_buffer_start_offset;
+            if self.max_buffer_length <= length {
+                log::error!("receive buffer is full of a single incomplete message. Resetting connection - max: {}, received: {}", self.max_buffer_length, length);
+                return false;
+            }
+            log::debug!(
+                "rotating {}b of buffer to make room for next message {}b",
+                length,
+                message_size
+            );
+            self.receive_buffer_swap.clear();
+            self.receive_buffer_swap.extend_from_slice(
+                &self.receive_buffer
+                    [self.receive_buffer_start_offset..self.receive_buffer_slice_end],
+            );
+            std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
+            self.receive_buffer_start_offset = 0;
+            self.receive_buffer_slice_end = length;
+        }
+        true
+    }
+
     /// read from the TcpStream
     fn read_from_stream(&mut self) -> ReadBufferState {
         match self
-- 
2.43.0


From 9675559979bc14d068aa2ce190d4d024282925f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:55 +0000
Subject: [PATCH 05/16] fix: deliver messages that were received before the
 stream ended

---
 protosocket-connection/src/connection.rs | 31 +++++++++++++++---------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index cf52500..478f357 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -33,6 +33,7 @@ pub struct Connection<Bindings: ConnectionBindings> {
     receive_buffer_start_offset: usize,
     receive_buffer: Vec<u8>,
     receive_buffer_swap: Vec<u8>,
+    receive_closed: bool,
     max_buffer_length: usize,
     max_queued_send_messages: usize,
     deserializer: Bindings::Deserializer,
@@ -73,14 +74,16 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
         }
 
         // Step 2: Deserialize read bytes into messages
-        if let Some(early_out) = self.as_mut().poll_deserialize(context) {
-            return early_out;
-        }
+        let more_to_deserialize = self.as_mut().poll_deserialize(context);
 
         // Step 3: Process inbound messages with the Connection's MessageReactor
         if let Some(early_out) = self.poll_react() {
             return early_out;
         }
+        if self.receive_closed && !more_to_deserialize {
+            log::debug!("reactor has all of the messages that were received before the end");
+            return Poll::Ready(());
+        }
 
         // Step 4: Prepare outbound messages for sending. We serialize the outbound bytes here as per the
         // Connection's serializer
@@ -144,6 +147,7 @@ where
             serializer_buffers: Vec::from_iter((0..1).map(|_| Vec::new())),
             receive_buffer: Vec::new(),
             receive_buffer_swap: Vec::new(),
+            receive_closed: false,
             max_buffer_length,
             receive_buffer_start_offset: 0,
             max_queued_send_messages,
@@ -458,7 +462,9 @@ where
 
     fn poll_receive(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
         loop {
-            break if self.receive_buffer_slice_end < self.max_buffer_length {
+            break if self.receive_closed {
+                log::debug!("receive side is closed");
+            } else if self.receive_buffer_slice_end < self.max_buffer_length {
                 match self.stream.poll_read_ready(context) {
                     Poll::Ready(status) => {
                         if let Err(e) = status {
@@ -480,11 +486,12 @@ where
                             }
                             ReadBufferState::Disconnected => {
                                 log::info!("read connection closed");
-                                return Some(Poll::Ready(()));
+                                // messages that arrived before the end of the stream still go to the reactor
+                                self.receive_closed = true;
                             }
                             ReadBufferState::Error(e) => {
                                 log::warn!("error while reading from tcp stream: {e:?}");
-                                return Some(Poll::Ready(()));
+                                self.receive_closed = true;
                             }
                         }
                     }
@@ -499,12 +506,13 @@ where
         None
     }
 
-    fn poll_deserialize(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
+    /// Returns true when there may be more complete messages in the receive buffer
+    fn poll_deserialize(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> bool {
         if self.receive_buffer_start_offset == self.receive_buffer_slice_end {
             // Only when the read buffer is empty should deserialization skip waking the task.
             // I always want the task to be pending on network readability, network writability, or the outbound message channel.
             // Otherwise, I want the task to be woken.
-            return None;
+            return false;
         }
         let start_len = self.inbound_messages.len();
         let receive_was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
@@ -527,17 +535,18 @@ where
             ReadBufferState::PartiallyConsumed => {
                 log::debug!("read buffer partially consumed for responsiveness {self}");
                 context.waker().wake_by_ref();
+                return true;
             }
             ReadBufferState::Disconnected => {
                 log::info!("read queue closed");
-                return Some(Poll::Ready(()));
+                self.receive_closed = true;
             }
             ReadBufferState::Error(e) => {
                 log::warn!("error while reading from buffer: {e:?}");
-                return Some(Poll::Ready(()));
+                self.receive_closed = true;
             }
         }
-        None
+        false
     }
 
     fn poll_react(&mut self) -> Option<Poll<()>> {
-- 
2.43.0


From 6486bba7ea236994d11252fb69169428fd9bdb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:55 +0000
Subject: [PATCH 06/16] fix: send messages that were queued before the outbound
 channel closed

---
 protosocket-connection/src/connection.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 478f357..7523b1f 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -26,6 +26,7 @@ pub struct Connection<Bindings: ConnectionBindings> {
     address: std::net::SocketAddr,
     outbound_messages: mpsc::Receiver<<Bindings::Serializer as Serializer>::Message>,
     outbound_message_buffer: Vec<<Bindings::Serializer as Serializer>::Message>,
+    outbound_closed: bool,
     inbound_messages: Vec<<Bindings::Deserializer as Deserializer>::Message>,
     serializer_buffers: Vec<Vec<u8>>,
     send_buffer: VecDeque<Vec<u8>>,
@@ -92,9 +93,15 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
         }
 
         // Step 5: Send outbound messages if the stream is ready for writing
-        if let Some(early_out) = self.poll_outbound(context) {
+        if let Some(early_out) = self.as_mut().poll_outbound(context) {
             return early_out;
         }
+        if self.outbound_closed && self.send_buffer.is_empty() {
+            log::debug!(
+                "sent all of the messages that were queued before the outbound channel closed"
+            );
+            return Poll::Ready(());
+        }
 
         Poll::Pending
     }
@@ -142,6 +149,7 @@ where
             address,
             outbound_messages,
             outbound_message_buffer: Vec::new(),
+            outbound_closed: false,
             inbound_messages: Vec::with_capacity(max_queued_send_messages),
             send_buffer: Default::default(),
             serializer_buffers: Vec::from_iter((0..1).map(|_| Vec::new())),
@@ -319,6 +327,10 @@ where
 
     /// This serializes work-in-progress messages and moves them over into the write queue
     fn poll_serialize_outbound_messages(&mut self, context: &mut Context<'_>) -> Poll<()> {
+        if self.outbound_closed {
+            // pending on a network status event to finish sending
+            return Poll::Pending;
+        }
         let max_outbound = self.room_in_send_buffer();
         if max_outbound == 0 {
             log::debug!("send is full: {self}");
@@ -345,7 +357,8 @@ where
                                 None => {
                                     assert_eq!(0, count);
                                     log::info!("outbound message channel was closed");
-                                    return Poll::Ready(());
+                                    self.outbound_closed = true;
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From b1f29a0a61568ef697c1e025620d9a6f5ba26d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:55 +0000
Subject: [PATCH 07/16] fix: a message that encodes to nothing does not close
 the connection

---
 protosocket-connection/src/connection.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 7523b1f..cc3f5a3 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -338,7 +338,7 @@ where
             return Poll::Pending;
         }
 
-        let start_len = self.send_buffer.len();
+        let mut serialized = 0;
         for _ in 0..max_outbound {
             let message = match self.outbound_message_buffer.pop() {
                 Some(next) => next,
@@ -371,6 +371,12 @@ where
             };
             let mut buffer = self.serializer_buffers.pop().unwrap_or_default();
             self.serializer.encode(message, &mut buffer);
+            serialized += 1;
+            if buffer.is_empty() {
+                // there is nothing to write, and writing 0 bytes looks like a closed stream
+                self.serializer_buffers.push(buffer);
+                continue;
+            }
             if self.max_buffer_length < buffer.len() {
                 log::error!(
                     "tried to send too large a message. Max {}, attempted: {}",
@@ -386,12 +392,8 @@ where
             // queue up a writev
             self.send_buffer.push_back(buffer);
         }
-        let new_len = self.send_buffer.len();
-        if start_len != new_len {
-            log::debug!(
-                "serialized {} messages, waking task to look for more input",
-                new_len - start_len
-            );
+        if 0 < serialized {
+            log::debug!("serialized {serialized} messages, waking task to look for more input");
             // if the serializer made progress, there may be more work that the network or outbound channel can do.
             // make sure the task gets another round to try.
             context.waker().wake_by_ref();
-- 
2.43.0


From b05b7cedfd11119898be1793392dc3f759d52bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 08/16] fix: prost framing of malformed, overlong and
 non-minimal length delimiters

---
 protosocket-prost/src/prost_serializer.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index b03236a..7203e0a 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -2,6 +2,9 @@ use std::marker::PhantomData;
 
 use protosocket::{DeserializeError, Deserializer, Serializer};
 
+/// Length delimiters are varints, which are at most 10 bytes long.
+const MAX_DELIMITER_LENGTH: usize = 10;
+
 /// A stateless implementation of protosocket's `Serializer` and `Deserializer`
 /// traits using `prost` for encoding and decoding protocol buffers messages.
 #[derive(Default, Debug)]
@@ -38,21 +41,28 @@ where
         &mut self,
         mut buffer: impl bytes::Buf,
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
-        match prost::decode_length_delimiter(buffer.chunk()) {
+        let mut delimiter = buffer.chunk();
+        match prost::decode_length_delimiter(&mut delimiter) {
             Ok(message_length) => {
-                if buffer.remaining() < message_length + prost::length_delimiter_len(message_length)
-                {
+                // A varint is not necessarily encoded in its shortest form, so use the length it really has.
+                let delimiter_length = buffer.chunk().len() - delimiter.len();
+                let frame_length = message_length.saturating_add(delimiter_length);
+                if buffer.remaining() < frame_length {
                     return Err(DeserializeError::IncompleteBuffer {
-                        next_message_size: message_length,
+                        next_message_size: frame_length,
                     });
                 }
             }
-            Err(e) => {
+            Err(e) if buffer.chunk().len() < MAX_DELIMITER_LENGTH => {
                 log::trace!("can't read a length delimiter {e:?}");
                 return Err(DeserializeError::IncompleteBuffer {
-                    next_message_size: 10,
+                    next_message_size: MAX_DELIMITER_LENGTH,
                 });
             }
+            Err(e) => {
+                log::warn!("length delimiter is invalid: {e:?}");
+                return Err(DeserializeError::InvalidBuffer);
+            }
         };
 
         let start = buffer.remaining();
-- 
2.43.0


From 8984c7994ed142b7261b5a15767107a3f1bf71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:24 +0000
Subject: [PATCH 09/16] fix: messagepack decoding stays within its frame and
 survives any length prefix

---
 protosocket-messagepack/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index c5ad82d..5e0ab5b 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -92,23 +92,23 @@ where
                 length
             }
         };
-        if start_remaining < (length + 5) as usize {
+        let frame_length = length as usize + 5;
+        if start_remaining < frame_length {
             return Err(protosocket::DeserializeError::IncompleteBuffer {
-                next_message_size: (length + 5) as usize,
+                next_message_size: frame_length,
             });
         }
         self.state = State::Waiting;
 
-        rmp_serde::decode::from_read(&mut reader)
+        // the message must not read into the next frame, and the next frame starts after this one
+        rmp_serde::decode::from_read(reader.take(length as u64))
             .map_err(|e| {
                 log::error!("decode error length {length}: {e:?}");
                 protosocket::DeserializeError::InvalidBuffer
             })
             .map(|message| {
-                let buffer = reader.into_inner();
-                let length = start_remaining - buffer.remaining();
-                log::debug!("decoded {length}: {message:?}");
-                (length, message)
+                log::debug!("decoded {frame_length}: {message:?}");
+                (frame_length, message)
             })
     }
 }
-- 
2.43.0


From 159c0553dba001ac7adefef7eeb7bdda2b9fdc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:05 +0000
Subject: [PATCH 10/16] fix: rpcs submitted but not yet taken up end when the
 connection goes away

---
 .../src/client/reactor/completion_reactor.rs         |  1 +
 .../src/client/reactor/completion_registry.rs        | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index febe6d5..5f1d64f 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -71,6 +71,7 @@ where
     fn drop(&mut self) {
         self.is_alive
             .store(false, std::sync::atomic::Ordering::Release);
+        self.rpc_registry.abandon_submissions();
     }
 }
 
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 0764724..ad0fe14 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -64,6 +64,18 @@ where
         }
     }
 
+    /// Drop the rpcs that were submitted but not yet taken up, so their callers see them end.
+    /// The submission map itself outlives this registry: clients hold on to it.
+    pub fn abandon_submissions(&mut self) {
+        let abandoned = std::mem::take(
+            &mut *self
+                .in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work"),
+        );
+        drop(abandoned);
+    }
+
     pub fn deregister(&mut self, message_id: u64) {
         self.in_flight.remove(&message_id);
     }
-- 
2.43.0


From fee32a55ece999de6ae1d15a6378cfe6a6e7c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:19 +0000
Subject: [PATCH 11/16] fix: dropping the completion of a finished rpc leaves a
 newer rpc with its message id alone

---
 .../src/client/reactor/completion_registry.rs | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index ad0fe14..47c33cc 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -114,20 +114,22 @@ where
     Outbound: Message,
 {
     fn drop(&mut self) {
+        if self.closed {
+            // The rpc is over and no longer registered. Its message id may be in use again.
+            return;
+        }
         self.in_flight_submission
             .lock()
             .expect("brief internal mutex must work")
             // This doesn't result in a prompt wake of the reactor
             .insert(self.message_id, CompletionState::Done);
-        if !self.closed {
-            if let Err(e) = self
-                .raw_submission_queue
-                .try_send(Outbound::cancelled(self.message_id))
-            {
-                log::error!(
-                    "unable to send cancellation for message - this will abandon server rpcs {e:?}"
-                );
-            }
+        if let Err(e) = self
+            .raw_submission_queue
+            .try_send(Outbound::cancelled(self.message_id))
+        {
+            log::error!(
+                "unable to send cancellation for message - this will abandon server rpcs {e:?}"
+            );
         }
     }
 }
-- 
2.43.0


From d2a8f241ca6763289c42ad96af9c661c2cc674e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:52 +0000
Subject: [PATCH 12/16] fix: an aborted rpc that retires leaves a newer rpc
 with its message id alone

---
 protosocket-rpc/src/server/connection_server.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index 2238136..a1696ef 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -156,11 +156,9 @@ where
                             }
                         }
                         Some((id, AbortableState::Aborted)) => {
-                            // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // Whoever marked this rpc aborted already took its abort handle. If there is a handle
+                            // for the id now, it belongs to a newer rpc that reuses the id.
                             log::debug!("{id} unary rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
@@ -250,10 +248,8 @@ where
                             }
                         }
                         Some((id, AbortableState::Aborted)) => {
+                            // As with unary rpcs: the handle was already taken by whoever marked this aborted.
                             log::debug!("{id} streaming rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
-- 
2.43.0


From 41defa3a84c3d550ff051956c8ddea786f73934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:28 +0000
Subject: [PATCH 13/16] fix: an rpc server keeps accepting when an accepted
 connection cannot be set up

---
 protosocket-rpc/src/server/socket_server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protosocket-rpc/src/server/socket_server.rs b/protosocket-rpc/src/server/socket_server.rs
index 3819a83..7d1cb31 100644
--- a/protosocket-rpc/src/server/socket_server.rs
+++ b/protosocket-rpc/src/server/socket_server.rs
@@ -70,7 +70,11 @@ where
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            // the peer may already be gone; that is no reason to stop accepting
+                            log::error!("failed to set up accepted connection: {e:?}");
+                            continue;
+                        }
                         let (submitter, inbound_messages) = RpcSubmitter::new();
                         let (outbound_messages, outbound_messages_receiver) =
                             mpsc::channel(self.max_queued_outbound_messages);
-- 
2.43.0


From d5b28e8f331af46b73866d027a3a4a81c9c7ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:28 +0000
Subject: [PATCH 14/16] fix: a server keeps accepting when an accepted
 connection cannot be set up

---
 protosocket-server/src/connection_server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protosocket-server/src/connection_server.rs b/protosocket-server/src/connection_server.rs
index 9eaed3c..de9a17a 100644
--- a/protosocket-server/src/connection_server.rs
+++ b/protosocket-server/src/connection_server.rs
@@ -96,7 +96,11 @@ impl<Connector: ServerConnector> Future for ProtosocketServer<Connector> {
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            // the peer may already be gone; that is no reason to stop accepting
+                            log::error!("failed to set up accepted connection: {e:?}");
+                            continue;
+                        }
                         let (outbound_submission_queue, outbound_messages) =
                             mpsc::channel(self.max_queued_outbound_messages);
                         let reactor = self
-- 
2.43.0


From e36bd1ecf65780c71e9ee148f07fde728dc6778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:55 +0000
Subject: [PATCH 15/16] fix: busy unary rpcs do not starve streaming rpcs of
 the outbound queue

---
 protosocket-rpc/src/server/connection_server.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index a1696ef..e2a1ad4 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -32,6 +32,8 @@ where
         FuturesUnordered<IdentifiableAbortable<TConnectionServer::UnaryFutureType>>,
     outstanding_streaming_rpcs: SelectAll<IdentifiableAbortable<TConnectionServer::StreamType>>,
     aborts: HashMap<u64, IdentifiableAbortHandle>,
+    // both kinds of rpcs share the outbound queue: the kind that used it last goes last.
+    streaming_goes_first: bool,
 }
 
 impl<TConnectionServer> Future for RpcConnectionServer<TConnectionServer>
@@ -49,11 +51,19 @@ where
         self.as_mut().handle_message_buffer();
 
         // retire and advance outstanding rpcs
+        let streaming_goes_first = self.streaming_goes_first;
+        if streaming_goes_first {
+            if let Some(early_out) = self.as_mut().poll_advance_streaming_rpcs(context) {
+                return early_out;
+            }
+        }
         if let Some(early_out) = self.as_mut().poll_advance_unary_rpcs(context) {
             return early_out;
         }
-        if let Some(early_out) = self.poll_advance_streaming_rpcs(context) {
-            return early_out;
+        if !streaming_goes_first {
+            if let Some(early_out) = self.poll_advance_streaming_rpcs(context) {
+                return early_out;
+            }
         }
 
         Poll::Pending
@@ -77,6 +87,7 @@ where
             outstanding_unary_rpcs: Default::default(),
             outstanding_streaming_rpcs: Default::default(),
             aborts: Default::default(),
+            streaming_goes_first: false,
         }
     }
 
@@ -104,6 +115,7 @@ where
                     match unary_done {
                         Some((id, AbortableState::Ready(Ok(response)))) => {
                             self.aborts.remove(&id);
+                            self.streaming_goes_first = true;
                             if let Err(_e) = self.outbound.send_item(response) {
                                 log::debug!("outbound connection is closed");
                                 return Some(Poll::Ready(Err(crate::Error::ConnectionIsClosed)));
@@ -198,6 +210,7 @@ where
                     match streaming_next {
                         Some((id, AbortableState::Ready(Ok(next)))) => {
                             log::debug!("{id} streaming rpc next {next:?}");
+                            self.streaming_goes_first = false;
                             if let Err(_e) = self.outbound.send_item(next) {
                                 log::debug!("outbound connection is closed");
                                 return Some(Poll::Ready(Err(crate::Error::ConnectionIsClosed)));
-- 
2.43.0


From 619979a941ff7fb0a94bf5b811ec35b735223370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:04 +0000
Subject: [PATCH 16/16] fix: a declared length near the end of the address
 space does not overflow the receive buffer arithmetic

---
 protosocket-connection/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index cc3f5a3..f91a995 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -262,7 +262,7 @@ where
             return false;
         }
         if self.max_buffer_length <= self.receive_buffer_slice_end
-            || self.max_buffer_length < self.receive_buffer_slice_end + message_size
+            || self.max_buffer_length < self.receive_buffer_slice_end.saturating_add(message_size)
         {
             let length = self.receive_buffer_slice_end - self.receive_buffer_start_offset;
             if self.max_buffer_length <= length {
-- 
2.43.0

