use crate::rt::*;
use crate::sym;
use futures::future::{self, Ready};
use std::task::{Context, Poll};
use tower::Service;
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::lsp_types::*;
use tower_lsp::{LanguageServer, Loopback, LspService, Server};

#[no_mangle]
pub extern "C" fn h_smoke1() {
    let x = sym::u8();
    let v = vec![1u32, 2, 3];
    let s = format!("{}", v.len() + x as usize);
    sym::log_bytes(s.as_bytes());
    sym::check(s.len() <= 3, "short");
    let m: serde_json::Value = serde_json::from_str("{\"a\":[1,2,\"x\"]}").unwrap();
    sym::check(m["a"][1] == 2, "json");
}

struct Rec;
static SEEN: Cell1<Vec<Request>> = Cell1::new(vec![]);
impl Service<Request> for Rec {
    type Response = Option<Response>;
    type Error = std::fmt::Error;
    type Future = Ready<Result<Self::Response, Self::Error>>;
    fn poll_ready(&mut self, _: &mut Context) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, r: Request) -> Self::Future {
        let id = r.id().cloned();
        SEEN.get().push(r);
        future::ok(id.map(|id| Response::from_ok(id, serde_json::Value::Null)))
    }
}
struct NoLoop;
impl Loopback for NoLoop {
    type RequestStream = futures::stream::Empty<Request>;
    type ResponseSink = futures::sink::Drain<Response>;
    fn split(self) -> (Self::RequestStream, Self::ResponseSink) {
        (futures::stream::empty(), futures::sink::drain())
    }
}

static IN: Cell1<In> = Cell1::new(In::new());
static OUT: Cell1<Out> = Cell1::new(Out::new());

#[no_mangle]
pub extern "C" fn h_smoke2() {
    let msg = br#"{"jsonrpc":"2.0","method":"initialize","params":{},"id":1}"#;
    let mut f = format!("Content-Length: {}\r\n\r\n", msg.len()).into_bytes();
    f.extend_from_slice(msg);
    let n = sym::choose(f.len());
    let mut t = Task::new(Server::new(Reader(&IN), Writer(&OUT), NoLoop).serve(Rec));
    t.run();
    IN.get().push(&f[..n]);
    t.run();
    IN.get().push(&f[n..]);
    t.run();
    sym::check(SEEN.get().len() == 1, "one request");
    IN.get().close();
    t.run();
    sym::check(t.done(), "serve returns");
    sym::log_bytes(&OUT.get().data);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_smoke1", h_smoke1), ("h_smoke2", h_smoke2)];
