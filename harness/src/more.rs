//! C24: the server loop in front of any service and any client socket. C25: custom methods.

use crate::proto::{code, message, utf8};
use crate::rt::*;
use crate::srv::*;
use crate::sym;
use crate::wire::*;
use futures::{Sink, Stream};
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tower::Service;
use tower_lsp::jsonrpc::{Id, Request, Response, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{LanguageServer, Loopback, LspService, Server};

/// Whether something can be used: not now, yes, or never again.
#[derive(Clone, Copy, PartialEq)]
enum Ready {
    Wait,
    Yes,
    No,
}
#[derive(Clone, Copy, PartialEq)]
enum End {
    Reply,
    Nothing,
    Error,
}
/// A service that obeys the contract of `tower::Service` and insists on it.
struct OddState {
    ready: Ready,
    granted: bool,
    refused: bool,
    calls: Vec<Request>,
    ends: Vec<End>,
    waker: Option<Waker>,
}
static ODD: Cell1<OddState> = Cell1::new(OddState { ready: Ready::Yes, granted: false, refused: false, calls: vec![], ends: vec![], waker: None });
struct Odd;
struct OddCall(usize, Option<Id>, bool);
impl Service<Request> for Odd {
    type Response = Option<Response>;
    type Error = std::fmt::Error;
    type Future = OddCall;
    fn poll_ready(&mut self, cx: &mut Context) -> Poll<std::result::Result<(), Self::Error>> {
        let s = ODD.get();
        match s.ready {
            Ready::Wait => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Ready::Yes => {
                s.granted = true;
                Poll::Ready(Ok(()))
            }
            Ready::No => {
                s.refused = true;
                Poll::Ready(Err(std::fmt::Error))
            }
        }
    }
    fn call(&mut self, r: Request) -> OddCall {
        let s = ODD.get();
        sym::check(s.granted && !s.refused, "C24: the service was called without being ready");
        s.granted = false;
        let k = s.calls.len();
        let id = r.id().cloned();
        s.calls.push(r);
        OddCall(k, id, false)
    }
}
impl Future for OddCall {
    type Output = std::result::Result<Option<Response>, std::fmt::Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        sym::check(!self.2, "C24: a call was polled after it had ended");
        let mut w = Wait(&GATES[self.0]);
        match Pin::new(&mut w).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                self.2 = true;
                W.get().slots[self.0].finished += 1;
                let id = self.1.clone();
                Poll::Ready(match ODD.get().ends[self.0] {
                    End::Reply => Ok(id.map(|id| Response::from_ok(id, json!([self.0, W.get().slots[self.0].val])))),
                    End::Nothing => Ok(None),
                    End::Error => Err(std::fmt::Error),
                })
            }
        }
    }
}
/// A client socket that obeys the contracts of `Stream` and `Sink` and insists on them.
struct OddSock {
    ready: Ready,
    granted: bool,
    flushed: usize,
    ended: bool,
    sink: Option<Waker>,
    closed: bool,
}
static SOCK: Cell1<OddSock> = Cell1::new(OddSock { ready: Ready::Yes, granted: false, flushed: 0, ended: false, sink: None, closed: false });
struct OddStream;
impl Stream for OddStream {
    type Item = Request;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Request>> {
        sym::check(!SOCK.get().ended, "C24: the requests were polled after they had ended");
        let r = Pin::new(&mut ReqStream).poll_next(cx);
        SOCK.get().ended |= matches!(r, Poll::Ready(None));
        r
    }
}
struct OddSink;
impl Sink<Response> for OddSink {
    type Error = std::fmt::Error;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::result::Result<(), Self::Error>> {
        let s = SOCK.get();
        match s.ready {
            Ready::Wait => {
                s.sink = Some(cx.waker().clone());
                Poll::Pending
            }
            Ready::Yes => {
                s.granted = true;
                Poll::Ready(Ok(()))
            }
            Ready::No => Poll::Ready(Err(std::fmt::Error)),
        }
    }
    fn start_send(self: Pin<&mut Self>, r: Response) -> std::result::Result<(), Self::Error> {
        sym::check(SOCK.get().granted, "C24: a response was handed over although the socket was not ready");
        SOCK.get().granted = false;
        RESPS.get().push(r);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::result::Result<(), Self::Error>> {
        SOCK.get().flushed = RESPS.get().len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::result::Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
}
struct OddLoop;
impl Loopback for OddLoop {
    type RequestStream = OddStream;
    type ResponseSink = OddSink;
    fn split(self) -> (OddStream, OddSink) {
        (OddStream, OddSink)
    }
}

/// What the client sent, in order.
enum Sent {
    Call(Option<i64>),
    Answer(i64),
}

fn contract(steps: usize) {
    let n = sym::pick(&[1, 2]);
    let mut t = Task::new(Server::new(Reader(&IN), Writer(&OUT), OddLoop).concurrency_level(n).serve(Odd));
    t.run();
    let mut sent: Vec<Sent> = vec![];
    let mut asked: usize = 0;
    // Nothing after this many messages is handed over any more, as the service or the socket refused.
    let mut cut: Option<usize> = None;
    // How many have been handed over.
    let mut done = 0;
    for _ in 0..steps {
        match sym::choose(9) {
            k @ 0..=2 => {
                let i = sent.len() as i64;
                let mut b = b"{\"jsonrpc\":\"2.0\",".to_vec();
                b.extend_from_slice([&b"\"method\":\"a\",\"id\":"[..], b"\"method\":\"b\"", b"\"result\":0,\"id\":"][k]);
                if k != 1 {
                    b.extend_from_slice(&dec(i as usize));
                }
                b.push(b'}');
                IN.get().push(&frame(&b));
                if k == 2 {
                    sent.push(Sent::Answer(i));
                } else {
                    sent.push(Sent::Call(if k == 0 { Some(i) } else { None }));
                    W.get().slots[ODD.get().ends.len()].val = (digit() - b'0') as i64;
                    ODD.get().ends.push(sym::pick(&[End::Reply, End::Nothing, End::Error]));
                }
            }
            3 => {
                sym::assume(ODD.get().ready == Ready::Yes);
                ODD.get().ready = Ready::Wait;
            }
            4 => {
                sym::assume(ODD.get().ready != Ready::No);
                ODD.get().ready = if ODD.get().ready == Ready::Wait { Ready::Yes } else { Ready::No };
                if let Some(w) = ODD.get().waker.take() {
                    w.wake();
                }
            }
            5 => {
                let l: Vec<usize> = (0..ODD.get().calls.len()).filter(|k| !GATES[*k].get().open).collect();
                sym::assume(!l.is_empty());
                GATES[l[sym::choose(l.len())]].get().release();
            }
            6 => {
                sym::assume(!SEND.get().end);
                SEND.get().push(if sym::flip() { Request::build("x").id(asked as i64).finish() } else { Request::build("y").params(json!(asked)).finish() });
                asked += 1;
            }
            7 => {
                sym::assume(!SEND.get().end);
                SEND.get().finish();
                sym::reach(3);
            }
            _ => {
                let s = SOCK.get();
                sym::assume(s.ready != Ready::No);
                s.ready = match (s.ready, sym::choose(2)) {
                    (Ready::Yes, 0) => Ready::Wait,
                    (Ready::Wait, 0) => Ready::Yes,
                    _ => Ready::No,
                };
                if let Some(w) = s.sink.take() {
                    w.wake();
                }
            }
        }
        t.run();
        // Messages are handed over one by one.
        while done < sent.len() && cut.is_none() {
            let r = match sent[done] {
                Sent::Call(_) => ODD.get().ready,
                Sent::Answer(_) => SOCK.get().ready,
            };
            match r {
                Ready::Yes => done += 1,
                Ready::Wait => break,
                Ready::No => cut = Some(done),
            }
        }
        state(&t, &sent[..done], asked, cut.is_some(), n);
        if cut.is_some() {
            sym::reach(4);
        }
        sym::assume(!t.done());
    }
    ODD.get().ready = Ready::Yes;
    SOCK.get().ready = Ready::Yes;
    for w in [ODD.get().waker.take(), SOCK.get().sink.take()].into_iter().flatten() {
        w.wake();
    }
    t.run();
    if cut.is_none() {
        done = sent.len();
    }
    for k in 0..NK {
        GATES[k].get().release();
        t.run();
    }
    state(&t, &sent[..done], asked, cut.is_some(), n);
    IN.get().close();
    t.run();
    sym::check(t.done(), "C24: serve does not end");
    state(&t, &sent[..done], asked, cut.is_some(), n);
    sym::reach(1);
}

fn state(t: &Task<()>, sent: &[Sent], asked: usize, cut: bool, n: usize) {
    let o = ODD.get();
    let calls: Vec<Option<i64>> = sent.iter().filter_map(|s| if let Sent::Call(id) = s { Some(*id) } else { None }).collect();
    let answers: Vec<i64> = sent.iter().filter_map(|s| if let Sent::Answer(id) = s { Some(*id) } else { None }).collect();
    sym::check(o.calls.len() == calls.len(), "C24: not every message was handed to the service, or one twice");
    for (r, id) in o.calls.iter().zip(&calls) {
        sym::check(r.id() == id.map(Id::Number).as_ref() && r.method() == if id.is_some() { "a" } else { "b" }, "C24: the service got the messages in another order");
    }
    let got = RESPS.get();
    sym::check(got.len() == answers.len() && SOCK.get().flushed == got.len(), "C24: not every response was handed to the socket, or one twice");
    sym::check(got.iter().zip(&answers).all(|(r, id)| r.id() == &Id::Number(*id)), "C24: the socket got the responses in another order");
    // The first `n` unfinished calls are in progress; those released have ended.
    let mut running = 0;
    let mut want = 0;
    for k in 0..calls.len() {
        let open = GATES[k].get().open;
        let fin = W.get().slots[k].finished;
        sym::check(fin <= 1, "C24: a call ended twice");
        if running < n {
            sym::check(fin == open as u32, "C24: a call did not go on");
            running += !open as usize;
        }
        if fin == 1 {
            want += (o.ends[k] == End::Reply && calls[k].is_some()) as usize;
        }
    }
    let (resps, reqs): (Vec<Value>, Vec<Value>) = written("C24: the output is not a sequence of whole frames holding JSON").into_iter().partition(|v| v.get("method").is_none());
    sym::check(resps.len() == want, "C24: not every response was written, or one twice");
    for r in &resps {
        let k = r["result"][0].as_u64().map_or(99, |k| k as usize);
        sym::check(k < calls.len() && r["result"][1] == W.get().slots[k].val && r["id"].as_i64() == calls[k] && W.get().slots[k].finished == 1, "C24: a wrong response was written");
    }
    if want > 0 {
        sym::reach(2);
    }
    sym::check(reqs.len() == asked && SEND.get().queue.is_empty(), "C24: not every message of the client socket was written, or one twice");
    for (i, r) in reqs.iter().enumerate() {
        sym::check(r["id"] == json!(i) || r["params"] == json!(i), "C24: the messages of the client socket were written in another order");
    }
    let over = (0..calls.len()).all(|k| W.get().slots[k].finished == 1);
    sym::check(t.done() == (over && (cut || IN.get().eof)), "C24: serve ended too early, or did not end after the service or the socket refused");
}

#[no_mangle]
pub extern "C" fn h_c24_a() {
    contract(4)
}
#[no_mangle]
pub extern "C" fn h_c24_a_t() {
    contract(5)
}

/// What ran, in order.
static HITS: Cell1<Vec<(&'static str, u32)>> = Cell1::new(vec![]);
fn hit(name: &'static str, n: u32) {
    HITS.get().push((name, n));
}
struct Own;
#[tower_lsp::async_trait]
impl LanguageServer for Own {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        hit("initialize", 0);
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> Result<()> {
        hit("shutdown", 0);
        Ok(())
    }
    async fn symbol_resolve(&self, s: WorkspaceSymbol) -> Result<WorkspaceSymbol> {
        hit("workspaceSymbol/resolve", 0);
        Ok(s)
    }
    async fn did_change_configuration(&self, _: DidChangeConfigurationParams) {
        hit("workspace/didChangeConfiguration", 0);
    }
}
impl Own {
    async fn first(&self, n: u32) -> Result<Value> {
        hit("first", n);
        Wait(&GATES[1]).await;
        Ok(json!([1, n]))
    }
    async fn second(&self, n: u32) -> Result<Value> {
        hit("second", n);
        Wait(&GATES[1]).await;
        Ok(json!([2, n]))
    }
    async fn third(&self) {
        hit("third", 0);
    }
}
/// Names of the protocol, with the params they take.
const TAKEN: [(&str, Option<&str>, bool); 6] = [
    ("initialize", Some("{\"capabilities\":{}}"), true),
    ("shutdown", None, true),
    ("workspaceSymbol/resolve", Some("{\"name\":\"\",\"kind\":1,\"location\":{\"uri\":\"a:b\"}}"), true),
    ("workspace/didChangeConfiguration", Some("{\"settings\":1}"), false),
    ("$/cancelRequest", Some("{\"id\":77}"), false),
    ("exit", None, false),
];
/// Any short name, or one the protocol takes.
fn any_name(n: usize) -> String {
    match sym::choose(1 + TAKEN.len()) {
        0 => utf8(sym::choose(n + 1)),
        k => TAKEN[k - 1].0.to_string(),
    }
}
/// A service with custom methods of the given names.
fn with(names: [String; 3]) -> (LspService<Own>, tower_lsp::ClientSocket) {
    let [a, b, c] = names.map(|n| -> &'static str { Box::leak(n.into_boxed_str()) });
    LspService::build(|_| Own).custom_method(a, Own::first).custom_method(b, Own::second).custom_method(c, Own::third).finish()
}
struct Use {
    svc: LspService<Own>,
    _sock: tower_lsp::ClientSocket,
}
impl Use {
    fn call(&mut self, r: Request) -> Task<Option<Response>> {
        let f = self.svc.call(r);
        let mut t = Task::new(async move {
            match f.await {
                Ok(r) => r,
                Err(_) => sym::fail("C25: the service has exited"),
            }
        });
        t.run();
        t
    }
    fn now(&mut self, r: Request) -> Option<Response> {
        match self.call(r).out {
            Some(r) => r,
            None => sym::fail("C25: a message was not dealt with at once"),
        }
    }
}
fn custom(len: usize) {
    let names = [any_name(len), any_name(len), any_name(len)];
    let (svc, sock) = with(names.clone());
    let mut s = Use { svc, _sock: sock };
    let phase = sym::choose(3);
    if phase > 0 {
        let r = s.now(message("initialize", Some(json!({"capabilities": {}})), Some(Id::Number(1))));
        sym::check(r.map_or(false, |r| r.is_ok()) && HITS.get()[..] == [("initialize", 0)], "C25: a custom method got in the way of initialize");
    }
    if phase > 1 {
        let r = s.now(message("shutdown", None, Some(Id::Number(2))));
        sym::check(r.map_or(false, |r| r.is_ok()) && HITS.get()[1..] == [("shutdown", 0)], "C25: a custom method got in the way of shutdown");
    }
    HITS.get().clear();
    let refused = [-32002, 0, -32600][phase];
    match sym::choose(3) {
        // A name of the protocol still means what it meant.
        0 => {
            let (name, params, request) = TAKEN[sym::choose(TAKEN.len())];
            sym::assume(name != "exit" && (phase == 1 || (name != "initialize" && name != "shutdown")));
            let id = if request { Some(Id::Number(3)) } else { None };
            let r = s.now(message(name, params.map(|p| serde_json::from_str(p).unwrap()), id));
            let want: &[(&str, u32)] = if phase == 1 && name != "initialize" && name != "$/cancelRequest" { &[(name, 0)] } else { &[] };
            sym::check(HITS.get()[..] == *want, "C25: a custom method took the place of one of the protocol");
            match r {
                Some(r) => sym::check(request && code(&r) == if name == "initialize" { -32600 } else { refused }, "C25: a custom method changed one of the protocol"),
                None => sym::check(!request, "C25: a request was not answered"),
            }
            sym::reach(2);
        }
        // `exit` still works.
        1 => {
            sym::check(s.now(message("exit", None, None)).is_none(), "C25: exit was answered");
            sym::check(HITS.get().is_empty() && futures::future::poll_fn(|cx| s.svc.poll_ready(cx)).now_ready().map_or(false, |r| r.is_err()), "C25: a custom method took the place of exit");
            sym::reach(3);
            return;
        }
        // Any name that is not the protocol's.
        _ => {
            let k = sym::choose(4);
            let name = if k == 3 { utf8(sym::choose(len + 1)) } else { names[k].clone() };
            for (t, ..) in TAKEN {
                sym::assume(t.len() != name.len() || t != name);
            }
            let owner = names.iter().position(|n| *n == name);
            let p = sym::u32();
            let id = if sym::flip() { Some(Id::Number(sym::u32() as i32 as i64)) } else { None };
            let params = if owner == Some(2) { None } else { Some(json!(p)) };
            let mut t = s.call(message(&name, params, id.clone()));
            let runs = phase == 1 && owner.map_or(false, |o| (o == 2) == id.is_none());
            let want: &[(&str, u32)] = match owner {
                Some(0) if runs => &[("first", p)],
                Some(1) if runs => &[("second", p)],
                Some(2) if runs => &[("third", 0)],
                _ => &[],
            };
            sym::check(HITS.get()[..] == *want, "C25: a message ran another handler than the one registered first under its name");
            if !t.done() {
                sym::check(runs && owner != Some(2), "C25: a message was not dealt with at once");
                if sym::flip() {
                    s.now(message("$/cancelRequest", Some(json!({ "id": id_value(&id) })), None));
                    t.run();
                    sym::check(matches!(&t.out, Some(Some(r)) if Some(r.id()) == id.as_ref() && code(r) == -32800), "C25: a custom request cannot be cancelled");
                    sym::reach(4);
                } else {
                    GATES[1].get().release();
                    t.run();
                    let want = Response::from_ok(id.unwrap(), json!([owner.unwrap() + 1, p]));
                    sym::check(t.out == Some(Some(want)), "C25: a custom request was not answered with the result of its handler");
                    sym::reach(5);
                }
            } else {
                match (t.out.take().unwrap(), id) {
                    (None, None) => sym::reach(6),
                    (Some(r), Some(id)) => {
                        let want = match owner {
                            None => -32601,
                            _ if phase != 1 => refused,
                            _ => -32600,
                        };
                        sym::check(r.id() == &id && code(&r) == want, "C25: a message that runs no handler got the wrong answer");
                        sym::reach(7);
                    }
                    _ => sym::fail("C25: a notification was answered or a request was not"),
                }
            }
        }
    }
    sym::reach(1);
}
fn id_value(id: &Option<Id>) -> Value {
    serde_json::to_value(id).unwrap()
}
/// Polls a future once.
trait NowReady: Future + Sized {
    fn now_ready(self) -> Option<Self::Output> {
        futures::FutureExt::now_or_never(self)
    }
}
impl<F: Future> NowReady for F {}
#[no_mangle]
pub extern "C" fn h_c25_a() {
    custom(2)
}
#[no_mangle]
pub extern "C" fn h_c25_a_t() {
    custom(3)
}

pub const ENTRIES: &[(&str, extern "C" fn())] =
    &[("h_c24_a", h_c24_a), ("h_c24_a_t", h_c24_a_t), ("h_c25_a", h_c25_a), ("h_c25_a_t", h_c25_a_t)];
