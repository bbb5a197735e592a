//! The transport side of the harnesses: frames, an independent strict frame reader for the output,
//! a recording service and loopback, and one running server over the in-memory pipes.

use crate::rt::*;
use crate::srv::*;
use crate::sym;
use futures::future::{self, Ready};
use futures::{Sink, Stream};
use serde_json::Value;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tower::Service;
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::{Loopback, Server};

pub static IN: Cell1<In> = Cell1::new(In::new());
pub static OUT: Cell1<Out> = Cell1::new(Out::new());

/// `Content-Length: n` and the body.
pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = b"Content-Length: ".to_vec();
    v.extend_from_slice(&dec(body.len()));
    v.extend_from_slice(b"\r\n\r\n");
    v.extend_from_slice(body);
    v
}
pub fn dec(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        v.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return v;
        }
    }
}

/// Reads one frame strictly as the specification defines it. Returns its body and its length.
fn one(b: &[u8]) -> Option<(&[u8], usize)> {
    let h = b"Content-Length: ";
    if b.len() < h.len() || &b[..h.len()] != h {
        return None;
    }
    let mut i = h.len();
    let mut n = 0usize;
    while i < b.len() && b[i].is_ascii_digit() && i < h.len() + 7 {
        n = n * 10 + (b[i] - b'0') as usize;
        i += 1;
    }
    if i == h.len() || (b[h.len()] == b'0' && i > h.len() + 1) || b.len() < i + 4 || &b[i..i + 4] != b"\r\n\r\n" {
        return None;
    }
    i += 4;
    if b.len() < i + n {
        return None;
    }
    Some((&b[i..i + n], i + n))
}

/// The bodies of all whole frames in `b`; `whole` demands that nothing else follows.
pub fn bodies(mut b: &[u8], whole: bool, msg: &str) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while !b.is_empty() {
        match one(b) {
            Some((body, n)) => {
                v.push(body.to_vec());
                b = &b[n..];
            }
            None => {
                sym::check(!whole, msg);
                break;
            }
        }
    }
    v
}

/// Every message the client can see so far; the output must consist of whole frames holding JSON.
pub fn written(msg: &str) -> Vec<Value> {
    let o = OUT.get();
    bodies(&o.data[..o.flushed], true, msg)
        .iter()
        .map(|b| match serde_json::from_slice(b) {
            Ok(v) => v,
            Err(_) => sym::fail(msg),
        })
        .collect()
}

/// Records every request it gets; answers requests with `null`.
pub struct Rec;
pub static SEEN: Cell1<Vec<Request>> = Cell1::new(vec![]);
impl Service<Request> for Rec {
    type Response = Option<Response>;
    type Error = std::fmt::Error;
    type Future = Ready<Result<Self::Response, Self::Error>>;
    fn poll_ready(&mut self, _: &mut Context) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, r: Request) -> Self::Future {
        let id = r.id().cloned();
        SEEN.get().push(r);
        future::ok(id.map(|id| Response::from_ok(id, Value::Null)))
    }
}

/// The client side: records responses, yields the requests the harness queues.
pub struct RecLoop;
pub static RESPS: Cell1<Vec<Response>> = Cell1::new(vec![]);
pub struct Outgoing {
    pub queue: Vec<Request>,
    pub end: bool,
    waker: Option<Waker>,
}
pub static SEND: Cell1<Outgoing> = Cell1::new(Outgoing { queue: vec![], end: false, waker: None });
impl Outgoing {
    pub fn finish(&mut self) {
        self.end = true;
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
    pub fn push(&mut self, r: Request) {
        self.queue.push(r);
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}
pub struct ReqStream;
impl Stream for ReqStream {
    type Item = Request;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Request>> {
        let s = SEND.get();
        if !s.queue.is_empty() {
            Poll::Ready(Some(s.queue.remove(0)))
        } else if s.end {
            Poll::Ready(None)
        } else {
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
pub struct RespSink;
impl Sink<Response> for RespSink {
    type Error = std::fmt::Error;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, r: Response) -> Result<(), Self::Error> {
        RESPS.get().push(r);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
}
impl Loopback for RecLoop {
    type RequestStream = ReqStream;
    type ResponseSink = RespSink;
    fn split(self) -> (ReqStream, RespSink) {
        (ReqStream, RespSink)
    }
}

/// A server over the pipes with the recording service.
pub fn rec_server() -> Task<()> {
    Task::new(Server::new(Reader(&IN), Writer(&OUT), RecLoop).serve(Rec))
}

/// A server over the pipes with the real service.
pub fn lsp_server(concurrency: Option<usize>) -> Task<()> {
    let (svc, sock) = service();
    let s = Server::new(Reader(&IN), Writer(&OUT), sock);
    let s = match concurrency {
        Some(n) => s.concurrency_level(n),
        None => s,
    };
    Task::new(s.serve(svc))
}

pub fn send(t: &mut Task<()>, body: &str) {
    IN.get().push(&frame(body.as_bytes()));
    t.run();
}

/// A printable ASCII character that JSON strings hold unescaped.
pub fn plain() -> u8 {
    let c = sym::u8();
    sym::assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\');
    c
}
pub fn digit() -> u8 {
    let c = sym::u8();
    sym::assume(c.is_ascii_digit());
    c
}
