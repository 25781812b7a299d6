From 1ee92a91540eb9d837a953c96a25f9e454d66057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 01/21] fix: let Connection: close win over keep-alive on other
 lines of the message

---
 src/proto/h1/role.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..963ce01 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -352,6 +352,12 @@ impl Http1Transaction for Server {
             keep_alive = false;
         }
 
+        // There can be more than one `Connection` line, and `close` in any of
+        // them wins over a `keep-alive`, whichever came last.
+        if keep_alive && headers::connection_any_close(&headers) {
+            keep_alive = false;
+        }
+
         let mut extensions = http::Extensions::default();
 
         if let Some(header_case_map) = header_case_map {
@@ -1145,6 +1151,12 @@ impl Http1Transaction for Client {
                 headers.append(name, value);
             }
 
+            // There can be more than one `Connection` line, and `close` in any of
+            // them wins over a `keep-alive`, whichever came last.
+            if keep_alive && headers::connection_any_close(&headers) {
+                keep_alive = false;
+            }
+
             let mut extensions = http::Extensions::default();
 
             if let Some(header_case_map) = header_case_map {
-- 
2.43.0


From 7745d989df3d391e8e0f58b6165097dc4242d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 02/21] fix: strip headers nominated by every Connection line
 of an HTTP/2 message

---
 src/proto/h2/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..ff23d24 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -59,8 +59,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
     #[cfg(feature = "client")]
     if matches!(kind, MessageKind::Request) {
         if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
+            .get_all(http::header::TE)
+            .iter()
+            .any(|te_header| te_header != "trailers")
         {
             warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
             headers.remove(http::header::TE);
@@ -69,21 +70,27 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         warn!("TE headers illegal in HTTP/2 responses");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    if headers.contains_key(CONNECTION) {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
         );
+        // There can be more than one `Connection` line, all of them count.
+        let connection: Vec<_> = headers.get_all(CONNECTION).iter().cloned().collect();
+        headers.remove(CONNECTION);
+
         // A `Connection` header may have a comma-separated list of names of other headers that
         // are meant for only this specific connection.
         //
         // Iterate these names and remove them as headers. Connection-specific headers are
         // forbidden in HTTP2, as that information has been moved into frame types of the h2
         // protocol.
-        if let Ok(header_contents) = header.to_str() {
-            for name in header_contents.split(',') {
-                let name = name.trim();
-                headers.remove(name);
+        for header in connection {
+            if let Ok(header_contents) = header.to_str() {
+                for name in header_contents.split(',') {
+                    let name = name.trim();
+                    headers.remove(name);
+                }
             }
         }
     }
-- 
2.43.0


From b2db486b870505604e7e036469b60b6a52d05c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 03/21] fix: keep the HTTP/2 connection open when refusing a
 CONNECT with a body

---
 src/proto/h2/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..0e97544 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -287,7 +287,7 @@ where
                             if content_length.map_or(false, |len| len != 0) {
                                 warn!("h2 connect request with non-zero body not supported");
                                 respond.send_reset(h2::Reason::INTERNAL_ERROR);
-                                return Poll::Ready(Ok(()));
+                                continue;
                             }
                             let (pending, upgrade) = crate::upgrade::pending();
                             debug_assert!(parts.extensions.get::<OnUpgrade>().is_none());
-- 
2.43.0


From fe9ef89b5fb492e2b5142c5aad30a1e85cd91cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 04/21] fix: don't become idle while queued body bytes are
 still to be flushed

---
 src/proto/h1/conn.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..9a5351a 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -562,7 +562,12 @@ where
     }
 
     fn try_keep_alive(&mut self, cx: &mut Context<'_>) {
-        self.state.try_keep_alive::<T>();
+        // Queued body bytes still have to be flushed before another message can
+        // be started, so don't become idle yet. `poll_flush` tries again once
+        // they are written.
+        if self.io.can_headers_buf() {
+            self.state.try_keep_alive::<T>();
+        }
         self.maybe_notify(cx);
     }
 
-- 
2.43.0


From d121dfc5b5d489af064083e7a60afce550516737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 05/21] fix: don't hold the spawn queue while locking the
 driver in the ffi executor

---
 src/ffi/task.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ffi/task.rs b/src/ffi/task.rs
index 9c7fba6..9fc9f3a 100644
--- a/src/ffi/task.rs
+++ b/src/ffi/task.rs
@@ -237,17 +237,20 @@ impl hyper_executor {
         }
     }
 
-    /// drain_queue locks both self.spawn_queue and self.driver, so it requires
+    /// drain_queue locks self.spawn_queue and then self.driver, so it requires
     /// that neither of them be locked already.
+    ///
+    /// They are not held at the same time: a future being polled by another
+    /// thread holds the driver, and may be waiting to `spawn`.
     fn drain_queue(&self) -> bool {
-        let mut queue = self.spawn_queue.lock().panic_if_poisoned();
+        let queue = std::mem::take(&mut *self.spawn_queue.lock().panic_if_poisoned());
         if queue.is_empty() {
             return false;
         }
 
         let driver = self.driver.lock().panic_if_poisoned();
 
-        for task in queue.drain(..) {
+        for task in queue {
             driver.push(task);
         }
 
-- 
2.43.0


From 4376ed25c451a66ebb06139d0a65ca418d9633ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:24 +0000
Subject: [PATCH 06/21] fix: keep a response's Connection: close when answering
 an HTTP/1.0 keep-alive request

---
 src/proto/h1/conn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 9a5351a..f6bf0f9 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -680,9 +680,12 @@ where
                 // disable keep-alive so the server closes the connection
                 Version::HTTP_10 => self.state.disable_keep_alive(),
                 // If response is version 1.1 and keep-alive is wanted, add
-                // Connection: keep-alive header when not present
+                // Connection: keep-alive header when not present, unless the
+                // message itself asks to close
                 Version::HTTP_11 => {
-                    if self.state.wants_keep_alive() {
+                    if self.state.wants_keep_alive()
+                        && !headers::connection_any_close(&head.headers)
+                    {
                         head.headers
                             .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
-- 
2.43.0


From 3300d696dea2e0aa139b67fb6f9413022d96b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:48 +0000
Subject: [PATCH 07/21] fix: say keep-alive to an HTTP/1.0 peer whatever
 version the response was built with

---
 src/proto/h1/conn.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index f6bf0f9..0ad591c 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -681,8 +681,9 @@ where
                 Version::HTTP_10 => self.state.disable_keep_alive(),
                 // If response is version 1.1 and keep-alive is wanted, add
                 // Connection: keep-alive header when not present, unless the
-                // message itself asks to close
-                Version::HTTP_11 => {
+                // message itself asks to close. Any other version (such as
+                // HTTP/2 from a forwarded response) is treated the same.
+                _ => {
                     if self.state.wants_keep_alive()
                         && !headers::connection_any_close(&head.headers)
                     {
@@ -690,7 +691,6 @@ where
                             .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
                 }
-                _ => (),
             }
         }
     }
-- 
2.43.0


From da69eb6176f4ce1a381ca1f1a0cd5be18c38fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 08/21] fix: pipeline_flush only delays a flush while the next
 message can be read

The flush was skipped whenever unread bytes were buffered, also when
nothing more would be parsed: the last response was then never written.
---
 src/proto/h1/conn.rs |  8 ++++++++
 src/proto/h1/io.rs   | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 0ad591c..1147fb8 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -844,6 +844,14 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.io.can_delay_flush() {
+            // Only hold bytes back for `pipeline_flush` if another message is
+            // about to be read, since nothing else would get them written.
+            self.try_keep_alive(cx);
+            if self.state.notify_read {
+                return Poll::Ready(Ok(()));
+            }
+        }
         ready!(Pin::new(&mut self.io).poll_flush(cx))?;
         self.try_keep_alive(cx);
         trace!("flushed({}): {:?}", T::LOG, self.state);
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..91ed37b 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -158,6 +158,12 @@ where
         self.flush_pipeline || self.write_buf.can_buffer()
     }
 
+    /// Whether flushing can wait for the response to the next pipelined
+    /// message, of which there are bytes in the read buffer.
+    pub(crate) fn can_delay_flush(&self) -> bool {
+        self.flush_pipeline && !self.read_buf.is_empty()
+    }
+
     pub(crate) fn consume_leading_lines(&mut self) {
         if !self.read_buf.is_empty() {
             let mut i = 0;
@@ -269,9 +275,7 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        if self.flush_pipeline && !self.read_buf.is_empty() {
-            Poll::Ready(Ok(()))
-        } else if self.write_buf.remaining() == 0 {
+        if self.write_buf.remaining() == 0 {
             Pin::new(&mut self.io).poll_flush(cx)
         } else {
             if let WriteStrategy::Flatten = self.write_buf.strategy {
-- 
2.43.0


From b3c3dc8e01627653769a91c5e9676272ee844e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 09/21] fix: bound the write buffer with pipeline_flush too

---
 src/proto/h1/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 91ed37b..322bad6 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -155,13 +155,13 @@ where
     }
 
     pub(crate) fn can_buffer(&self) -> bool {
-        self.flush_pipeline || self.write_buf.can_buffer()
+        self.write_buf.can_buffer()
     }
 
     /// Whether flushing can wait for the response to the next pipelined
     /// message, of which there are bytes in the read buffer.
     pub(crate) fn can_delay_flush(&self) -> bool {
-        self.flush_pipeline && !self.read_buf.is_empty()
+        self.flush_pipeline && !self.read_buf.is_empty() && self.can_buffer()
     }
 
     pub(crate) fn consume_leading_lines(&mut self) {
-- 
2.43.0


From 1450983983ce3c89281d7bed7e5aec8341b3429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 10/21] fix: flush everything written before handing the
 transport over

An upgrade, or poll_without_shutdown(), dropped what was still queued when the
request body ended after the response had been written.
---
 src/proto/h1/conn.rs     | 10 ++++++++++
 src/proto/h1/dispatch.rs |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 1147fb8..5aee27a 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -858,6 +858,16 @@ where
         Poll::Ready(Ok(()))
     }
 
+    /// Flush everything written so far, because the transport is about to be
+    /// handed over, and those bytes couldn't be written anymore afterwards.
+    pub(super) fn poll_flush_handover(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        self.io.poll_flush(cx)
+    }
+
+    pub(super) fn has_pending_upgrade(&self) -> bool {
+        self.state.upgrade.is_some()
+    }
+
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
         match ready!(self.io.poll_shutdown(cx)) {
             Ok(()) => {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index f250f55..e2ca8dc 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -150,6 +150,9 @@ where
         ready!(self.poll_loop(cx))?;
 
         if self.is_done() {
+            if !should_shutdown || self.conn.has_pending_upgrade() {
+                ready!(self.conn.poll_flush_handover(cx)).map_err(crate::Error::new_body_write)?;
+            }
             if let Some(pending) = self.conn.pending_upgrade() {
                 self.conn.take_error()?;
                 return Poll::Ready(Ok(Dispatched::Upgrade(pending)));
-- 
2.43.0


From ce78beeee7e8a5b1ebd2f844a345a08d4a3005d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 11/21] fix: loop again if the flush before yielding only waits
 for the next message

---
 src/proto/h1/dispatch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index e2ca8dc..fef914c 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -216,6 +216,11 @@ where
                     // reads. Flush what was just buffered before yielding.
                     if self.conn.has_buffered_write() {
                         let _ = self.poll_flush(cx)?;
+                        // With `pipeline_flush`, the bytes may still wait for
+                        // the next message, which is about to be read.
+                        if self.conn.wants_read_again() {
+                            continue;
+                        }
                     }
                     return Poll::Ready(Ok(()));
                 }
-- 
2.43.0


From 6675b6318e22aa1771dba0a50681d03c16721729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 12/21] fix: drop the pending upgrade when the response
 declines it

A server that answers an upgrade request with an ordinary response used to
keep the pending upgrade. When the connection later ended, OnUpgrade resolved
with an Upgraded for a connection that was never upgraded, and the transport
was not shut down.
---
 src/proto/h1/conn.rs | 6 ++++++
 src/proto/h1/mod.rs  | 5 +++++
 src/proto/h1/role.rs | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 5aee27a..acdd767 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -632,6 +632,12 @@ where
 
         self.enforce_version(&mut head);
 
+        // A response that doesn't accept the upgrade leaves this an ordinary
+        // HTTP connection, it must not be handed over when it ends.
+        if !T::keeps_upgrade(&head.subject, &self.state.method) {
+            self.state.upgrade = None;
+        }
+
         let buf = self.io.headers_buf();
         match super::role::encode_headers::<T>(
             Encode {
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..a28c338 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -54,6 +54,11 @@ pub(crate) trait Http1Transaction {
     }
 
     fn update_date() {}
+
+    /// Whether sending this head leaves a pending upgrade in place.
+    fn keeps_upgrade(_subject: &Self::Outgoing, _req_method: &Option<Method>) -> bool {
+        true
+    }
 }
 
 /// Result newtype for `Http1Transaction::parse`.
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 963ce01..a024d9e 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -514,6 +514,11 @@ impl Http1Transaction for Server {
     fn update_date() {
         date::update();
     }
+
+    fn keeps_upgrade(subject: &Self::Outgoing, req_method: &Option<Method>) -> bool {
+        *subject == StatusCode::SWITCHING_PROTOCOLS
+            || (req_method == &Some(Method::CONNECT) && subject.is_success())
+    }
 }
 
 #[cfg(feature = "server")]
-- 
2.43.0


From e397d5f49ce70e8cf5e5661288b77dbd7d78f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:46 +0000
Subject: [PATCH 13/21] fix: end an incoming body once its last frame was
 handed over

When a service responded before its request body was read, the sender of the
body was kept after the last frame: the connection was already idle and only
waited for the next request, so the reader never saw the end of its body (and
got an incomplete-message error if the connection closed first).
---
 src/proto/h1/dispatch.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index fef914c..98916b5 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -258,7 +258,11 @@ where
                                 let chunk = frame.into_data().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_data(chunk) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // after the last frame, the body is
+                                        // ended by dropping its sender
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
@@ -272,7 +276,11 @@ where
                                     frame.into_trailers().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_trailers(trailers) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // after the last frame, the body is
+                                        // ended by dropping its sender
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
-- 
2.43.0


From 16ad2bafda608699f4bbc0d22f5d31181a7fc8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:58 +0000
Subject: [PATCH 14/21] fix: report no length for an HTTP/2 body that already
 ended

The size hint of the body of a HEAD (or 304) response was the exact value of
its Content-Length, although the stream had ended and no byte can come.
---
 src/body/incoming.rs |  7 ++++---
 src/body/length.rs   | 10 ----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..8592887 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -156,9 +156,10 @@ impl Incoming {
         mut content_length: DecodedLength,
         ping: ping::Recorder,
     ) -> Self {
-        // If the stream is already EOS, then the "unknown length" is clearly
-        // actually ZERO.
-        if !content_length.is_exact() && recv.is_end_stream() {
+        // If the stream is already EOS, then the length is clearly actually
+        // ZERO, whether it is unknown or announced for a message without a
+        // body (such as the response to a HEAD request).
+        if recv.is_end_stream() {
             content_length = DecodedLength::ZERO;
         }
 
diff --git a/src/body/length.rs b/src/body/length.rs
index 1ed5e0d..39141eb 100644
--- a/src/body/length.rs
+++ b/src/body/length.rs
@@ -74,16 +74,6 @@ impl DecodedLength {
             }
         }
     }
-
-    /// Returns whether this represents an exact length.
-    ///
-    /// This includes 0, which of course is an exact known length.
-    ///
-    /// It would return false if "chunked" or otherwise size-unknown.
-    #[cfg(all(any(feature = "client", feature = "server"), feature = "http2"))]
-    pub(crate) fn is_exact(&self) -> bool {
-        self.0 <= MAX_LEN
-    }
 }
 
 impl fmt::Debug for DecodedLength {
-- 
2.43.0


From 5eca57d1bf6e50c8361222a2ed0bb4aaa321acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:27 +0000
Subject: [PATCH 15/21] fix: don't send a nonzero Content-Length with a request
 that has no body

---
 src/proto/h1/role.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index a024d9e..f4f19c9 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1344,6 +1344,13 @@ impl Client {
             body
         } else {
             head.headers.remove(header::TRANSFER_ENCODING);
+            // Nothing will be sent, so a Content-Length that promises something
+            // would make the server take the next request for this one's body.
+            if headers::content_length_parse_all(&head.headers) != Some(0)
+                && head.headers.remove(header::CONTENT_LENGTH).is_some()
+            {
+                warn!("content-length value found, but empty body provided");
+            }
             return Encoder::length(0);
         };
 
-- 
2.43.0


From a9b146e0d0ff0a9d67c7cd18cb916e71a8c7dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:27 +0000
Subject: [PATCH 16/21] fix: remove an illegal Content-Length from requests
 instead of sending it

---
 src/proto/h1/role.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index f4f19c9..39e6722 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1366,6 +1366,10 @@ impl Client {
         // header, so unfortunately, we must do the check here, first.
 
         let existing_con_len = headers::content_length_parse_all(headers);
+        // An illegal one can't describe the body, whatever else is chosen below.
+        if existing_con_len.is_none() && headers.remove(header::CONTENT_LENGTH).is_some() {
+            warn!("removing illegal content-length header");
+        }
         let mut should_remove_con_len = false;
 
         if !can_chunked {
-- 
2.43.0


From 1919099635c5a3e4ce37ba23997b92eee0e687ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:27 +0000
Subject: [PATCH 17/21] fix: only append chunked to Transfer-Encoding, not to
 the headers after it

---
 src/proto/h1/role.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 39e6722..7cfa0dc 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -711,6 +711,7 @@ impl Server {
                 cur_name = Some(n);
                 handle_is_name_written!();
                 is_name_written = false;
+                must_write_chunked = false;
             }
             let name = cur_name.as_ref().expect("current header name");
             match *name {
-- 
2.43.0


From 73a26a0994f7dd8aa7bd50f67c2ea42d090991e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:27 +0000
Subject: [PATCH 18/21] fix: don't send Content-Length on 204 and 101 responses

---
 src/proto/h1/role.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 7cfa0dc..b6e8490 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -721,6 +721,12 @@ impl Server {
                         rewind(dst);
                         return Err(crate::Error::new_user_header());
                     }
+                    // these must not have one, there is never a body to describe
+                    if msg.head.subject == StatusCode::NO_CONTENT
+                        || msg.head.subject.is_informational()
+                    {
+                        continue 'headers;
+                    }
                     match msg.body {
                         Some(BodyLength::Known(known_len)) => {
                             // The Body claims to know a length, and
-- 
2.43.0


From 1a65a81d07dd8b27e6ba6e43cf708012cbe14cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:52 +0000
Subject: [PATCH 19/21] fix: do not lose a write accepted right before an
 HTTP/2 tunnel is closed

The task that writes an upgraded stream looked at its queue first and at the
close flag second. A write followed by a shutdown (or drop) on another thread
between the two ended the stream with the write still queued.
---
 src/proto/h2/upgrade.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 217aa27..c2ec4bb 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -174,7 +174,10 @@ where
             if !h2_has_capacity {
                 // `size_hint` reads the queued message count without popping,
                 // so an accepted write stays queued until h2 capacity returns.
-                if me.rx.size_hint().0 == 0 && me.close_notify.poll_closed(cx).is_ready() {
+                //
+                // The close is checked first: a write accepted right before
+                // it has to be counted as queued.
+                if me.close_notify.poll_closed(cx).is_ready() && me.rx.size_hint().0 == 0 {
                     me.h2_tx
                         .send_data(SendBuf::None, true)
                         .map_err(crate::Error::new_body_write)?;
-- 
2.43.0


From cad5e53faf3ec6dfee037e453b664612f07aab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:39 +0000
Subject: [PATCH 20/21] fix: build the C API without the http2 feature

The ffi feature documents that it needs client and http1 only, but
hyper_clientconn_send matched on a variant that exists with http2 only.
---
 src/ffi/client.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ffi/client.rs b/src/ffi/client.rs
index fcd3ef7..b112bb5 100644
--- a/src/ffi/client.rs
+++ b/src/ffi/client.rs
@@ -147,16 +147,19 @@ ffi_fn! {
         // Update request with original-case map of headers
         req.finalize_request();
 
-        let fut = match &mut non_null! { &mut *conn ?= ptr::null_mut() }.tx {
-            Tx::Http1(tx) => futures_util::future::Either::Left(tx.send_request(req.0)),
-            Tx::Http2(tx) => futures_util::future::Either::Right(tx.send_request(req.0)),
-        };
-
-        let fut = async move {
-            fut.await.map(hyper_response::wrap)
+        let task = match &mut non_null! { &mut *conn ?= ptr::null_mut() }.tx {
+            Tx::Http1(tx) => {
+                let fut = tx.send_request(req.0);
+                hyper_task::boxed(async move { fut.await.map(hyper_response::wrap) })
+            }
+            #[cfg(feature = "http2")]
+            Tx::Http2(tx) => {
+                let fut = tx.send_request(req.0);
+                hyper_task::boxed(async move { fut.await.map(hyper_response::wrap) })
+            }
         };
 
-        Box::into_raw(hyper_task::boxed(fut))
+        Box::into_raw(task)
     } ?= std::ptr::null_mut()
 }
 
-- 
2.43.0


From b9fdd2f4d56d298bebbde7fa873512c106d9c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:01 +0000
Subject: [PATCH 21/21] fix: header fields that do not fit into a HeaderMap
 panicked the connection

With max_headers configured above what a HeaderMap can hold, a peer that sent
more fields than that panicked the connection's task. Use the fallible
operations, and answer as for any other head that is too large.
---
 src/ext/mod.rs         | 13 +++++++++++--
 src/proto/h1/decode.rs |  4 +++-
 src/proto/h1/role.rs   | 24 ++++++++++++++++++------
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/ext/mod.rs b/src/ext/mod.rs
index 0fccb5f..fb9c8e0 100644
--- a/src/ext/mod.rs
+++ b/src/ext/mod.rs
@@ -43,7 +43,7 @@ use bytes::Bytes;
 ))]
 use http::header::HeaderName;
 #[cfg(all(any(feature = "client", feature = "server"), feature = "http1"))]
-use http::header::{HeaderMap, IntoHeaderName, ValueIter};
+use http::header::{HeaderMap, IntoHeaderName, MaxSizeReached, ValueIter};
 #[cfg(feature = "ffi")]
 use std::collections::HashMap;
 #[cfg(feature = "http2")]
@@ -189,13 +189,22 @@ impl HeaderCaseMap {
         self.0.insert(name, orig);
     }
 
-    #[cfg(any(feature = "client", feature = "server"))]
+    #[cfg(any(test, feature = "ffi"))]
     pub(crate) fn append<N>(&mut self, name: N, orig: Bytes)
     where
         N: IntoHeaderName,
     {
         self.0.append(name, orig);
     }
+
+    /// Like `append`, but an error instead of a panic if the map is full.
+    #[cfg(any(feature = "client", feature = "server"))]
+    pub(crate) fn try_append<N>(&mut self, name: N, orig: Bytes) -> Result<(), MaxSizeReached>
+    where
+        N: IntoHeaderName,
+    {
+        self.0.try_append(name, orig).map(|_| ())
+    }
 }
 
 #[cfg(feature = "ffi")]
diff --git a/src/proto/h1/decode.rs b/src/proto/h1/decode.rs
index bdfdf79..dbbf6f9 100644
--- a/src/proto/h1/decode.rs
+++ b/src/proto/h1/decode.rs
@@ -664,7 +664,9 @@ fn decode_trailers(buf: &mut BytesMut, count: usize) -> Result<HeaderMap, io::Er
                     }
                 };
 
-                trailers.append(name, value);
+                trailers.try_append(name, value).map_err(|_| {
+                    io::Error::new(io::ErrorKind::InvalidData, "chunk trailers count overflow")
+                })?;
             }
 
             Ok(trailers)
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index b6e8490..714d21e 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -257,7 +257,9 @@ impl Http1Transaction for Server {
 
         let mut headers = ctx.cached_headers.take().unwrap_or_default();
 
-        headers.reserve(headers_len);
+        headers
+            .try_reserve(headers_len)
+            .map_err(|_| Parse::TooLarge)?;
 
         for header in &headers_indices[..headers_len] {
             // SAFETY: array is valid up to `headers_len`
@@ -332,7 +334,9 @@ impl Http1Transaction for Server {
             }
 
             if let Some(header_case_map) = &mut header_case_map {
-                header_case_map.append(&name, slice.slice(header.name.0..header.name.1));
+                header_case_map
+                    .try_append(&name, slice.slice(header.name.0..header.name.1))
+                    .map_err(|_| Parse::TooLarge)?;
             }
 
             #[cfg(feature = "ffi")]
@@ -340,7 +344,9 @@ impl Http1Transaction for Server {
                 header_order.append(&name);
             }
 
-            headers.append(name, value);
+            headers
+                .try_append(name, value)
+                .map_err(|_| Parse::TooLarge)?;
         }
 
         if is_te && !is_te_chunked {
@@ -1133,7 +1139,9 @@ impl Http1Transaction for Client {
                 None
             };
 
-            headers.reserve(headers_len);
+            headers
+                .try_reserve(headers_len)
+                .map_err(|_| Parse::TooLarge)?;
             for header in &headers_indices[..headers_len] {
                 // SAFETY: array is valid up to `headers_len`
                 let header = unsafe { header.assume_init_ref() };
@@ -1152,7 +1160,9 @@ impl Http1Transaction for Client {
                 }
 
                 if let Some(header_case_map) = &mut header_case_map {
-                    header_case_map.append(&name, slice.slice(header.name.0..header.name.1));
+                    header_case_map
+                        .try_append(&name, slice.slice(header.name.0..header.name.1))
+                        .map_err(|_| Parse::TooLarge)?;
                 }
 
                 #[cfg(feature = "ffi")]
@@ -1160,7 +1170,9 @@ impl Http1Transaction for Client {
                     header_order.append(&name);
                 }
 
-                headers.append(name, value);
+                headers
+                    .try_append(name, value)
+                    .map_err(|_| Parse::TooLarge)?;
             }
 
             // There can be more than one `Connection` line, and `close` in any of
-- 
2.43.0

