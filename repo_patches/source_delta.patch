From 2284b4e20cfdf30b6f4c18b3dacd5447858ad60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:54 +0000
Subject: [PATCH 01/15] fix: import WorkspaceDiagnosticRefresh so that the
 crate compiles with lsp-types 0.94.1

---
 src/service/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/service/client.rs b/src/service/client.rs
index dd7e843..41bfe02 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -347,6 +347,7 @@ impl Client {
     ///
     /// This request was introduced in specification version 3.17.0.
     pub async fn workspace_diagnostic_refresh(&self) -> jsonrpc::Result<()> {
+        use lsp_types::request::WorkspaceDiagnosticRefresh;
         self.send_request::<WorkspaceDiagnosticRefresh>(()).await
     }
 
-- 
2.43.0


From 7c96b1353e6e4a28462c4fb946815b7caa51e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 02/15] fix: mark the server as initializing while `initialize`
 is in progress

Two `initialize` requests in quick succession both ran the handler, and an
`initialize` handler completing after `exit` brought the server back to life.
Since the state is now really entered, `poll_ready` must not report pending in
it: nothing would wake the caller, and answers to requests sent by the
`initialize` handler could not be read.
---
 src/service.rs        |  1 -
 src/service/layers.rs |  8 ++++++--
 src/service/state.rs  | 10 ++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 9c3c759..3c99a62 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -107,7 +107,6 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         match self.state.get() {
-            State::Initializing => Poll::Pending,
             State::Exited => Poll::Ready(Err(ExitedError(()))),
             _ => self.inner.poll_ready(cx),
         }
diff --git a/src/service/layers.rs b/src/service/layers.rs
index 512ed00..ffeb52c 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -64,14 +64,18 @@ where
     fn call(&mut self, req: Request) -> Self::Future {
         if self.state.get() == State::Uninitialized {
             let state = self.state.clone();
+            state.set(State::Initializing);
             let fut = self.inner.call(req);
 
             Box::pin(async move {
                 let response = fut.await?;
 
+                // The server may have received `exit` in the meantime, and must stay that way.
                 match &response {
-                    Some(res) if res.is_ok() => state.set(State::Initialized),
-                    _ => state.set(State::Uninitialized),
+                    Some(res) if res.is_ok() => {
+                        state.transition(State::Initializing, State::Initialized)
+                    }
+                    _ => state.transition(State::Initializing, State::Uninitialized),
                 }
 
                 Ok(response)
diff --git a/src/service/state.rs b/src/service/state.rs
index e404e8d..1eb1bb4 100644
--- a/src/service/state.rs
+++ b/src/service/state.rs
@@ -31,6 +31,16 @@ impl ServerState {
         self.0.store(state as u8, Ordering::SeqCst);
     }
 
+    /// Moves on to `next`, but only if the server is still in the `current` state.
+    pub fn transition(&self, current: State, next: State) {
+        let _ = self.0.compare_exchange(
+            current as u8,
+            next as u8,
+            Ordering::SeqCst,
+            Ordering::SeqCst,
+        );
+    }
+
     pub fn get(&self) -> State {
         match self.0.load(Ordering::SeqCst) {
             0 => State::Uninitialized,
-- 
2.43.0


From 0cfbf00201c9665af06ac888b0da7751bac2616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 03/15] fix: keep a cancelled request registered until it has
 resolved

A request reusing the ID of one that was cancelled but not yet answered was
accepted, and lost its own registration once the old one resolved: it could no
longer be cancelled, and its ID no longer counted as being in flight.
---
 src/service/pending.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/service/pending.rs b/src/service/pending.rs
index f0c446f..52f4630 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -57,7 +57,10 @@ impl Pending {
     /// This will force the future to resolve to a "canceled" error response. If the future has
     /// already completed, this method call will do nothing.
     pub fn cancel(&self, id: &Id) {
-        if let Some((_, handle)) = self.0.remove(id) {
+        // The entry stays until the aborted request has resolved: were the ID free before, the entry
+        // of a new request with the same ID could be removed in its place.
+        let handle = self.0.get(id).map(|entry| entry.value().clone());
+        if let Some(handle) = handle {
             handle.abort();
             info!("successfully cancelled request with ID: {}", id);
         } else {
-- 
2.43.0


From 38bb8cb494b960432fab7474c337816ad04456bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 04/15] fix: let `serve` finish when a message arrives after
 `exit`

Returning from the input loop left the channels open, so the other two loops
never ended and `serve` hung.
---
 src/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index a8bda1d..9af3525 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -131,7 +131,7 @@ where
                     Ok(Message::Request(req)) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
-                            return;
+                            break;
                         }
 
                         let fut = service.call(req).unwrap_or_else(|err| {
@@ -144,7 +144,7 @@ where
                     Ok(Message::Response(res)) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
-                            return;
+                            break;
                         }
                     }
                     Err(err) => {
-- 
2.43.0


From 7eacff2969d9a02dcf14ec0f98ce277474c06695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 05/15] fix: ignore responses to client requests nobody waits
 for any more

Such a response, to a request whose future was dropped (for instance because
the handler that sent it was cancelled), made the server panic.
---
 src/service/client/pending.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index af7ad06..0d3cac6 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -32,7 +32,9 @@ impl Pending {
                         _ => entry.get_mut().remove(0),
                     };
 
-                    tx.send(r).expect("receiver already dropped");
+                    if let Err(r) = tx.send(r) {
+                        warn!("request {} is no longer being waited for, ignoring", r.id());
+                    }
                 }
             },
         }
-- 
2.43.0


From d8a5b470f9616f14e36a5f35476f5d8b4f20a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 06/15] fix: answer unknown requests whose method starts with
 `$/`

Only notifications may be ignored; a request must be answered with "method not
found", and these never got any response. The filter also swallowed such errors
returned by a handler.
---
 src/service.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 3c99a62..2234080 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,12 +10,11 @@ use std::sync::Arc;
 use std::task::{Context, Poll};
 
 use futures::future::{self, BoxFuture, FutureExt};
-use serde_json::Value;
 use tower::Service;
 
-use crate::jsonrpc::{
-    Error, ErrorCode, FromParams, IntoResponse, Method, Request, Response, Router,
-};
+#[cfg(test)]
+use crate::jsonrpc::Error;
+use crate::jsonrpc::{FromParams, IntoResponse, Method, Request, Response, Router};
 use crate::LanguageServer;
 
 pub(crate) mod layers;
@@ -117,20 +116,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
             return future::err(ExitedError(())).boxed();
         }
 
-        let fut = self.inner.call(req);
-
-        Box::pin(async move {
-            let response = fut.await?;
-
-            match response.as_ref().and_then(|res| res.error()) {
-                Some(Error {
-                    code: ErrorCode::MethodNotFound,
-                    data: Some(Value::String(m)),
-                    ..
-                }) if m.starts_with("$/") => Ok(None),
-                _ => Ok(response),
-            }
-        })
+        self.inner.call(req)
     }
 }
 
-- 
2.43.0


From 7607bf553163cff7ff6b84053693bd9965334007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 07/15] fix: decode the message that follows an empty one
 without waiting for input

An empty message made the decoder ask for more input even when the next message
was already buffered, which was then only processed once further bytes arrived.
---
 src/codec.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 7d1d896..acf1d2f 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -167,6 +167,21 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     type Error = ParseError;
 
     fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        loop {
+            let len = src.len();
+            let result = self.decode_frame(src);
+
+            // `None` means that more input is needed, so carry on after an empty message.
+            match result {
+                Ok(None) if src.len() < len && self.content_len.is_none() => {}
+                result => return result,
+            }
+        }
+    }
+}
+
+impl<T: DeserializeOwned> LanguageServerCodec<T> {
+    fn decode_frame(&mut self, src: &mut BytesMut) -> Result<Option<T>, ParseError> {
         if let Some(content_len) = self.content_len {
             if src.len() < content_len {
                 return Ok(None);
@@ -201,7 +216,7 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                 Ok(content_len) => {
                     src.advance(headers_len);
                     self.content_len = Some(content_len);
-                    self.decode(src) // Recurse right back in, now that `Content-Length` is known.
+                    self.decode_frame(src) // Recurse right back in, now that `Content-Length` is known.
                 }
                 Err(err) => {
                     match err {
-- 
2.43.0


From 97d4c7af8b3a7e95b1172613a01f0613de259502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 08/15] fix: make progress after every malformed message

Header blocks that could not be parsed, header blocks without `Content-Length`
and with no further message buffered, and bodies that are not valid UTF-8 were
left in the buffer, so that the decoder failed on them again forever.
---
 src/codec.rs | 55 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index acf1d2f..31ebd56 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -188,16 +188,17 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
             }
 
             let bytes = &src[..content_len];
-            let message = std::str::from_utf8(bytes)?;
-
-            let result = if message.is_empty() {
-                Ok(None)
-            } else {
-                trace!("<- {}", message);
-                match serde_json::from_str(message) {
-                    Ok(parsed) => Ok(Some(parsed)),
-                    Err(err) => Err(err.into()),
+
+            let result = match std::str::from_utf8(bytes) {
+                Ok("") => Ok(None),
+                Ok(message) => {
+                    trace!("<- {}", message);
+                    match serde_json::from_str(message) {
+                        Ok(parsed) => Ok(Some(parsed)),
+                        Err(err) => Err(err.into()),
+                    }
                 }
+                Err(err) => Err(err.into()),
             };
 
             src.advance(content_len);
@@ -207,9 +208,13 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
         } else {
             let mut dst = [httparse::EMPTY_HEADER; 2];
 
-            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst)? {
-                httparse::Status::Complete(output) => output,
-                httparse::Status::Partial => return Ok(None),
+            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst) {
+                Ok(httparse::Status::Complete(output)) => output,
+                Ok(httparse::Status::Partial) => return Ok(None),
+                Err(err) => {
+                    skip_garbage(src);
+                    return Err(err.into());
+                }
             };
 
             match decode_headers(headers) {
@@ -220,12 +225,15 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
                 }
                 Err(err) => {
                     match err {
-                        ParseError::MissingContentLength => {}
-                        _ => src.advance(headers_len),
+                        ParseError::MissingContentLength => skip_garbage(src),
+                        _ => {
+                            src.advance(headers_len);
+
+                            // Skip any garbage bytes by scanning ahead for another potential message.
+                            src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
+                        }
                     }
 
-                    // Skip any garbage bytes by scanning ahead for another potential message.
-                    src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
                     Err(err)
                 }
             }
@@ -233,6 +241,21 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
     }
 }
 
+/// Skips at least one byte, and everything else up to the next potential message.
+fn skip_garbage(src: &mut BytesMut) {
+    const NEEDLE: &[u8] = b"Content-Length";
+
+    let skip = match memmem::find(&src[1..], NEEDLE) {
+        Some(pos) => pos + 1,
+        // Keep the end of the buffer if the header may continue in the input still to come.
+        None => (1..src.len())
+            .find(|&pos| NEEDLE.starts_with(&src[pos..]))
+            .unwrap_or(src.len()),
+    };
+
+    src.advance(skip);
+}
+
 fn decode_headers(headers: &[httparse::Header<'_>]) -> Result<usize, ParseError> {
     let mut content_len = None;
 
-- 
2.43.0


From 44085d1600ce028bf8849f6f213340814824fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 09/15] fix: go on reading after a malformed message

`FramedRead` ends its stream after a decoding error, so the first malformed
message made the server stop reading input for good.
---
 src/transport.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 9af3525..835e7c0 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,15 +1,16 @@
 //! Generic server for multiplexing bidirectional streams through a transport.
 
 #[cfg(feature = "runtime-agnostic")]
-use async_codec_lite::{FramedRead, FramedWrite};
+use async_codec_lite::{Decoder, FramedRead, FramedWrite};
 #[cfg(feature = "runtime-agnostic")]
 use futures::io::{AsyncRead, AsyncWrite};
 
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncRead, AsyncWrite};
 #[cfg(feature = "runtime-tokio")]
-use tokio_util::codec::{FramedRead, FramedWrite};
+use tokio_util::codec::{Decoder, FramedRead, FramedWrite};
 
+use bytes::BytesMut;
 use futures::channel::mpsc;
 use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
@@ -110,7 +111,7 @@ where
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
-        let mut framed_stdin = FramedRead::new(self.stdin, LanguageServerCodec::default());
+        let mut framed_stdin = FramedRead::new(self.stdin, ResilientCodec::default());
         let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
 
         let process_server_tasks = server_tasks_rx
@@ -128,7 +129,7 @@ where
         let read_input = async {
             while let Some(msg) = framed_stdin.next().await {
                 match msg {
-                    Ok(Message::Request(req)) => {
+                    Ok(Ok(Message::Request(req))) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
                             break;
@@ -141,17 +142,22 @@ where
 
                         server_tasks_tx.send(fut).await.unwrap();
                     }
-                    Ok(Message::Response(res)) => {
+                    Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
                             break;
                         }
                     }
-                    Err(err) => {
+                    Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
                         responses_tx.send(Message::Response(res)).await.unwrap();
                     }
+                    Err(err) => {
+                        error!("failed to read message: {}", err);
+                        let res = Response::from_error(Id::Null, Error::parse_error());
+                        responses_tx.send(Message::Response(res)).await.unwrap();
+                    }
                 }
             }
 
@@ -164,6 +170,19 @@ where
     }
 }
 
+/// Yields malformed messages as items, since `FramedRead` ends the stream after a decoding error.
+#[derive(Default)]
+struct ResilientCodec(LanguageServerCodec<Message>);
+
+impl Decoder for ResilientCodec {
+    type Item = Result<Message, ParseError>;
+    type Error = ParseError;
+
+    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        Ok(self.0.decode(src).transpose())
+    }
+}
+
 fn display_sources(error: &dyn std::error::Error) -> String {
     if let Some(source) = error.source() {
         format!("{}: {}", error, display_sources(source))
@@ -172,7 +191,6 @@ fn display_sources(error: &dyn std::error::Error) -> String {
     }
 }
 
-#[cfg(feature = "runtime-tokio")]
 fn to_jsonrpc_error(err: ParseError) -> Error {
     match err {
         ParseError::Body(err) if err.is_data() => Error::invalid_request(),
@@ -180,14 +198,6 @@ fn to_jsonrpc_error(err: ParseError) -> Error {
     }
 }
 
-#[cfg(feature = "runtime-agnostic")]
-fn to_jsonrpc_error(err: impl std::error::Error) -> Error {
-    match err.source().and_then(|e| e.downcast_ref()) {
-        Some(ParseError::Body(err)) if err.is_data() => Error::invalid_request(),
-        _ => Error::parse_error(),
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use std::task::{Context, Poll};
-- 
2.43.0


From 22d426292f8739cc7881baa9233e57885060c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 10/15] fix: answer a body that is not valid JSON with a parse
 error even if a value comes first

---
 src/codec.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 31ebd56..6690303 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -10,7 +10,8 @@ use std::str::Utf8Error;
 use bytes::buf::BufMut;
 use bytes::{Buf, BytesMut};
 use memchr::memmem;
-use serde::{de::DeserializeOwned, Serialize};
+use serde::de::{DeserializeOwned, IgnoredAny};
+use serde::Serialize;
 use tracing::{trace, warn};
 
 #[cfg(feature = "runtime-agnostic")]
@@ -195,7 +196,11 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
                     trace!("<- {}", message);
                     match serde_json::from_str(message) {
                         Ok(parsed) => Ok(Some(parsed)),
-                        Err(err) => Err(err.into()),
+                        // A valid value of the wrong type may still be followed by trailing garbage.
+                        Err(err) => match serde_json::from_str::<IgnoredAny>(message) {
+                            Err(syntax_err) => Err(syntax_err.into()),
+                            Ok(_) => Err(err.into()),
+                        },
                     }
                 }
                 Err(err) => Err(err.into()),
-- 
2.43.0


From d18761951a4c9793833cd731981b35eac2facac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:51 +0000
Subject: [PATCH 11/15] fix: keep sending client messages until all handlers
 are done at the end of input

---
 src/transport.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 835e7c0..7a4aef3 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -10,9 +10,13 @@ use tokio::io::{AsyncRead, AsyncWrite};
 #[cfg(feature = "runtime-tokio")]
 use tokio_util::codec::{Decoder, FramedRead, FramedWrite};
 
+use std::task::Poll;
+
 use bytes::BytesMut;
-use futures::channel::mpsc;
-use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
+use futures::channel::{mpsc, oneshot};
+use futures::{
+    future, join, pin_mut, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt,
+};
 use tower::Service;
 use tracing::error;
 
@@ -107,7 +111,7 @@ where
         T::Future: Send,
     {
         let (client_requests, mut client_responses) = self.loopback.split();
-        let (client_requests, client_abort) = stream::abortable(client_requests);
+        let (tasks_done_tx, mut tasks_done_rx) = oneshot::channel::<()>();
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
@@ -119,7 +123,16 @@ where
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
             .forward(responses_tx.clone().sink_map_err(|_| unreachable!()))
-            .map(|_| ());
+            .map(|_| drop(tasks_done_tx));
+
+        // Keep sending client requests until all server tasks, which may be waiting to send some
+        // more, are done and there are none left.
+        pin_mut!(client_requests);
+        let client_requests =
+            stream::poll_fn(move |cx| match client_requests.as_mut().poll_next(cx) {
+                Poll::Pending => tasks_done_rx.poll_unpin(cx).map(|_| None),
+                request => request,
+            });
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
             .map(Ok)
@@ -163,7 +176,6 @@ where
 
             server_tasks_tx.disconnect();
             responses_tx.disconnect();
-            client_abort.abort();
         };
 
         join!(print_output, read_input, process_server_tasks);
-- 
2.43.0


From 14ac097052554b67b4009459b8f6b2ba5a85e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 12/15] fix: keep a null `data` member of an error object

---
 src/jsonrpc/error.rs   | 3 +++
 src/jsonrpc/request.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsonrpc/error.rs b/src/jsonrpc/error.rs
index 4ce7358..a89606e 100644
--- a/src/jsonrpc/error.rs
+++ b/src/jsonrpc/error.rs
@@ -6,6 +6,8 @@ use std::fmt::{self, Display, Formatter};
 use serde::{Deserialize, Serialize};
 use serde_json::Value;
 
+use super::request::deserialize_some;
+
 /// A specialized [`Result`] error type for JSON-RPC handlers.
 ///
 /// [`Result`]: enum@std::result::Result
@@ -108,6 +110,7 @@ pub struct Error {
     /// A short description of the error.
     pub message: Cow<'static, str>,
     /// Additional information about the error, if any.
+    #[serde(default, deserialize_with = "deserialize_some")]
     #[serde(skip_serializing_if = "Option::is_none")]
     pub data: Option<Value>,
 }
diff --git a/src/jsonrpc/request.rs b/src/jsonrpc/request.rs
index c211458..00407a0 100644
--- a/src/jsonrpc/request.rs
+++ b/src/jsonrpc/request.rs
@@ -7,7 +7,7 @@ use serde_json::Value;
 
 use super::{Id, Version};
 
-fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
+pub(super) fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
 where
     T: Deserialize<'de>,
     D: Deserializer<'de>,
-- 
2.43.0


From ce86ecc174c8c61c6272cca9283bf21af3feb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 13/15] fix: end the session instead of panicking when the
 output fails

---
 src/transport.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 7a4aef3..93a10ba 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -14,9 +14,7 @@ use std::task::Poll;
 
 use bytes::BytesMut;
 use futures::channel::{mpsc, oneshot};
-use futures::{
-    future, join, pin_mut, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt,
-};
+use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
 use tracing::error;
 
@@ -122,12 +120,12 @@ where
             .buffer_unordered(self.max_concurrency)
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
-            .forward(responses_tx.clone().sink_map_err(|_| unreachable!()))
+            .forward(responses_tx.clone().sink_map_err(|_| ())) // Writing to `stdout` has failed.
             .map(|_| drop(tasks_done_tx));
 
         // Keep sending client requests until all server tasks, which may be waiting to send some
         // more, are done and there are none left.
-        pin_mut!(client_requests);
+        let mut client_requests = Box::pin(client_requests);
         let client_requests =
             stream::poll_fn(move |cx| match client_requests.as_mut().poll_next(cx) {
                 Poll::Pending => tasks_done_rx.poll_unpin(cx).map(|_| None),
@@ -153,7 +151,10 @@ where
                             None
                         });
 
-                        server_tasks_tx.send(fut).await.unwrap();
+                        // Nothing more can be answered once writing to `stdout` has failed.
+                        if server_tasks_tx.send(fut).await.is_err() {
+                            break;
+                        }
                     }
                     Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
@@ -164,12 +165,16 @@ where
                     Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break;
+                        }
                     }
                     Err(err) => {
                         error!("failed to read message: {}", err);
                         let res = Response::from_error(Id::Null, Error::parse_error());
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 36256df592fa3a88211f8c375c9983ad3e21840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 14/15] fix: do not shut down on a rejected duplicate
 `shutdown` request

---
 src/service/layers.rs  | 7 +++++++
 src/service/pending.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/service/layers.rs b/src/service/layers.rs
index ffeb52c..8b54f50 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -136,6 +136,8 @@ where
 
     fn call(&mut self, req: Request) -> Self::Future {
         match self.state.get() {
+            // Will be rejected, and so must not shut down the server.
+            State::Initialized if self.inner.is_duplicate(&req) => self.inner.call(req),
             State::Initialized => {
                 info!("shutdown request received, shutting down");
                 self.state.set(State::ShutDown);
@@ -280,6 +282,11 @@ impl<S> Cancellable<S> {
     fn new(inner: S, pending: Arc<Pending>) -> Self {
         Cancellable { inner, pending }
     }
+
+    /// Returns `true` if a request with the same ID is already being executed.
+    fn is_duplicate(&self, req: &Request) -> bool {
+        req.id().map_or(false, |id| self.pending.contains(id))
+    }
 }
 
 impl<S> Service<Request> for Cancellable<S>
diff --git a/src/service/pending.rs b/src/service/pending.rs
index 52f4630..69a68a3 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -52,6 +52,11 @@ impl Pending {
         }
     }
 
+    /// Returns `true` if a request with this ID is being executed.
+    pub fn contains(&self, id: &Id) -> bool {
+        self.0.contains_key(id)
+    }
+
     /// Attempts to cancel the running request handler corresponding to this ID.
     ///
     /// This will force the future to resolve to a "canceled" error response. If the future has
-- 
2.43.0


From 9c8f590152e0edaaf5bec45625e9f3f36ef2410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 15/15] fix: forget a request whose future is dropped before it
 has resolved

---
 src/service/layers.rs  | 16 ++++++++++------
 src/service/pending.rs | 24 +++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/service/layers.rs b/src/service/layers.rs
index 8b54f50..33cf231 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -12,7 +12,7 @@ use super::ExitedError;
 use crate::jsonrpc::{not_initialized_error, Error, Id, Request, Response};
 
 use super::client::Client;
-use super::pending::Pending;
+use super::pending::{Defer, Pending};
 use super::state::{ServerState, State};
 
 /// Middleware which implements `initialize` request semantics.
@@ -67,17 +67,21 @@ where
             state.set(State::Initializing);
             let fut = self.inner.call(req);
 
+            // Runs if the request fails, is cancelled, or if its future is dropped.
+            let on_failure = Defer::new({
+                let state = state.clone();
+                move || state.transition(State::Initializing, State::Uninitialized)
+            });
+
             Box::pin(async move {
                 let response = fut.await?;
 
                 // The server may have received `exit` in the meantime, and must stay that way.
-                match &response {
-                    Some(res) if res.is_ok() => {
-                        state.transition(State::Initializing, State::Initialized)
-                    }
-                    _ => state.transition(State::Initializing, State::Uninitialized),
+                if matches!(&response, Some(res) if res.is_ok()) {
+                    state.transition(State::Initializing, State::Initialized);
                 }
 
+                drop(on_failure);
                 Ok(response)
             })
         } else {
diff --git a/src/service/pending.rs b/src/service/pending.rs
index 69a68a3..cd8d1e1 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -36,10 +36,14 @@ impl Pending {
             let (handler_fut, abort_handle) = future::abortable(fut);
             entry.insert(abort_handle);
 
+            // Also removes the abort handle if this future is dropped before it has resolved.
             let requests = self.0.clone();
+            let guard_id = id.clone();
+            let guard = Defer::new(move || drop(requests.remove(&guard_id)));
+
             Either::Left(async move {
                 let abort_result = handler_fut.await;
-                requests.remove(&id); // Remove abort handle now to avoid double cancellation.
+                drop(guard); // Remove abort handle now to avoid double cancellation.
 
                 if let Ok(handler_result) = abort_result {
                     handler_result
@@ -85,6 +89,24 @@ impl Pending {
     }
 }
 
+/// Runs a closure when dropped.
+pub struct Defer<F: FnOnce()>(Option<F>);
+
+impl<F: FnOnce()> Defer<F> {
+    /// Creates a guard which runs the given closure when dropped.
+    pub fn new(f: F) -> Self {
+        Defer(Some(f))
+    }
+}
+
+impl<F: FnOnce()> Drop for Defer<F> {
+    fn drop(&mut self) {
+        if let Some(f) = self.0.take() {
+            f();
+        }
+    }
+}
+
 impl Debug for Pending {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         f.debug_set()
-- 
2.43.0

