From 2438b3784cf8f919656b1a42fdf248ead7dd882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 1/8] fix: reject inbound streams with the session's ID 0

A client accepted a frame with SYN and stream ID 0 because 0 is even. That ID
is reserved for the session itself.
---
 yamux/src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..1d16522 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -889,7 +889,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            // ID 0 is even but reserved for the session itself.
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From e31faa68fb90e92377e13ec449bc5f43f2752d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 2/8] fix: do not queue a frame on a socket that failed

Active::poll only looked at whether the socket's poll_ready was Ready, not at
whether it was Ok. After a write error, start_send then replaced the frame
that was still (partially) unsent.
---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 1d16522..8e99c67 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -400,7 +400,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 4333dc1cb78b3d38e5c07bd27427c879f559e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 3/8] fix: close the streams when the connection is closed

Connection::poll_close left the streams as they were: a task waiting to read
from or write to a stream was never woken, and data that was already buffered
could no longer be read, regardless of Config::set_read_after_close.
---
 yamux/src/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 8e99c67..915886b 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -380,7 +380,10 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        // Nothing is read from the socket any more: wake everybody who waits for it.
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
-- 
2.43.0


From d4a4c78549ce02676e1ac4c96dfc24c58e8e06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 4/8] fix: wake the task that waits to open a stream when the
 ACK backlog shrinks

A task parked in Connection::poll_new_outbound was only woken by an ACK. The
backlog also shrinks when an unacknowledged stream is reset or half-closed by
the remote, is closed or dropped locally, or when the connection ends.
---
 yamux/src/connection.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 915886b..3cb717a 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -443,6 +443,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                     }
                     Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {
                         log::trace!("{}/{}: sending close", self.id, id);
+                        self.wake_new_outbound_stream();
                         self.pending_write_frame
                             .replace(Frame::close_stream(id, ack).into());
                         continue;
@@ -520,6 +521,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
         let s = self.streams.remove(&stream_id).expect("stream not found");
 
         log::trace!("{}: removing dropped stream {}", self.id, stream_id);
+        self.wake_new_outbound_stream();
         let frame = {
             let mut shared = s.lock();
             let frame = match shared.update_state(self.id, stream_id, State::Closed) {
@@ -574,7 +576,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     fn on_frame(&mut self, frame: Frame<()>) -> Result<Action> {
         log::trace!("{}: received: {}", self.id, frame.header());
 
-        if frame.header().flags().contains(header::ACK)
+        let flags = frame.header().flags();
+        if flags.contains(header::ACK)
             && matches!(frame.header().tag(), Tag::Data | Tag::WindowUpdate)
         {
             let id = frame.header().stream_id();
@@ -583,9 +586,12 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                     .lock()
                     .update_state(self.id, id, State::Open { acknowledged: true });
             }
-            if let Some(waker) = self.new_outbound_stream_waker.take() {
-                waker.wake();
-            }
+        }
+
+        // Each of these may take a stream off the ACK backlog.
+        if flags.contains(header::ACK) || flags.contains(header::FIN) || flags.contains(header::RST)
+        {
+            self.wake_new_outbound_stream();
         }
 
         let action = match frame.header().tag() {
@@ -900,8 +906,16 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 }
 
 impl<T> Active<T> {
+    /// Wake the task that waits for the ACK backlog to shrink, if any.
+    fn wake_new_outbound_stream(&mut self) {
+        if let Some(waker) = self.new_outbound_stream_waker.take() {
+            waker.wake();
+        }
+    }
+
     /// Close and drop all `Stream`s and wake any pending `Waker`s.
     fn drop_all_streams(&mut self) {
+        self.wake_new_outbound_stream();
         for (id, s) in self.streams.drain() {
             let mut shared = s.lock();
             shared.update_state(self.id, id, State::Closed);
-- 
2.43.0


From ca4b683bbcf2381dc5e55fa67925055969c0ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 5/8] fix: a window update that carries the ACK acknowledges
 the stream

Stream::is_pending_ack kept returning true for an inbound stream whose ACK was
sent with a window update instead of a data frame.
---
 yamux/src/connection/stream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..e1f10b9 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -229,6 +229,10 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
         let cmd = StreamCommand::SendFrame(frame);
         self.sender
             .start_send(cmd)
-- 
2.43.0


From c8375b02a373e6f6d41f87b16f9eba3417eb0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 6/8] fix: send the SYN when a stream is closed before it was
 used

Stream::poll_close on an outbound stream that nothing was written to sent a FIN
for a stream that the remote had never heard of, and marked it half-closed; a
reader then waited for ever.
---
 yamux/src/connection/stream.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index e1f10b9..abecd93 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -419,14 +419,18 @@ impl AsyncWrite for Stream {
             .sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
-        let ack = if self.flag == Flag::Ack {
-            self.flag = Flag::None;
-            true
-        } else {
-            false
-        };
         log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
+        let cmd = match self.flag {
+            // Nothing was sent yet: the remote has to learn about the stream first.
+            Flag::Syn => {
+                let mut frame = Frame::close_stream(self.id, false);
+                frame.header_mut().syn();
+                StreamCommand::SendFrame(frame.left())
+            }
+            Flag::Ack => StreamCommand::CloseStream { ack: true },
+            Flag::None => StreamCommand::CloseStream { ack: false },
+        };
+        self.flag = Flag::None;
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From b43b28c36743ce5304fe4309ae766b0a0f55f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 7/8] fix: wake the task that waits to open a stream when an
 unused stream is closed

A stream that was closed before it was used sends its FIN as a data frame, not as a
CloseStream command; it leaves the ACK backlog all the same.
---
 yamux/src/connection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 3cb717a..145cc6b 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -438,6 +438,10 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             frame.header().stream_id(),
                             frame.header()
                         );
+                        if frame.header().flags().contains(header::FIN) {
+                            // The stream was closed and is no longer part of the ACK backlog.
+                            self.wake_new_outbound_stream();
+                        }
                         self.pending_write_frame.replace(frame.into());
                         continue;
                     }
-- 
2.43.0


From 0645a0083877be31afb4dcda641777a613c78c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:45 +0000
Subject: [PATCH 8/8] fix: closing a half-closed stream again sent a second FIN

---
 yamux/src/connection/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index abecd93..bcd0443 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -412,7 +412,8 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
+        // Once the FIN is on its way, there is nothing left to send.
+        if self.is_closed() || self.is_write_closed() {
             return Poll::Ready(Ok(()));
         }
         ready!(self
-- 
2.43.0

