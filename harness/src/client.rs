//! C10, C11, C18 and C19: the client handle, over the real service and its socket.

use crate::rt::*;
use crate::srv::*;
use crate::sym;
use futures::task::noop_waker;
use futures::{Sink, Stream};
use serde_json::{json, Map, Value};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, ExitedError, LspService};

type Pf<T> = Pin<Box<dyn Future<Output = T>>>;

enum Sock {
    Whole(ClientSocket),
    Split(Pin<Box<dyn Stream<Item = Request>>>, Pin<Box<dyn Sink<Response, Error = ExitedError>>>),
}
impl Sock {
    fn new(s: ClientSocket, split: bool) -> Self {
        if split {
            let (a, b) = s.split();
            Sock::Split(Box::pin(a), Box::pin(b))
        } else {
            Sock::Whole(s)
        }
    }
    fn next(&mut self) -> Poll<Option<Request>> {
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        match self {
            Sock::Whole(s) => Pin::new(s).poll_next(&mut cx),
            Sock::Split(s, _) => s.as_mut().poll_next(&mut cx),
        }
    }
    /// False if the socket refuses responses.
    fn respond(&mut self, r: Response) -> bool {
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        match self {
            Sock::Whole(s) => match Pin::new(&mut *s).poll_ready(&mut cx) {
                Poll::Ready(Ok(())) => Pin::new(s).start_send(r).is_ok(),
                _ => false,
            },
            Sock::Split(_, s) => match s.as_mut().poll_ready(&mut cx) {
                Poll::Ready(Ok(())) => s.as_mut().start_send(r).is_ok(),
                _ => false,
            },
        }
    }
}

/// A service, its client handle and the other end of its socket.
struct Side {
    svc: LspService<Mini>,
    sock: Sock,
}
impl Side {
    fn new(split: bool) -> Self {
        let (svc, sock) = service();
        Side { svc, sock: Sock::new(sock, split) }
    }
    fn up(split: bool) -> Self {
        let mut s = Side::new(split);
        GATES[0].get().release();
        let r = s.call(Request::build("initialize").params(init_params(0)).id(99).finish());
        sym::check(matches!(r, Some(Ok(Some(ref r))) if r.is_ok()), "initialize succeeds");
        s
    }
    /// The outcome of a call that ends without outside help; otherwise it is dropped.
    fn call(&mut self, r: Request) -> Option<std::result::Result<Option<Response>, ExitedError>> {
        let mut t = Task::new(self.svc.call(r));
        t.run();
        t.out
    }
    fn client(&self) -> Client {
        W.get().client.clone().unwrap()
    }
    /// What the socket yields now.
    fn drain(&mut self) -> Vec<Request> {
        let mut v = vec![];
        while let Poll::Ready(Some(r)) = self.sock.next() {
            v.push(r);
        }
        v
    }
    /// Runs the task and takes what it emits until neither goes on.
    fn pump<T>(&mut self, t: &mut Task<T>) -> Vec<Request> {
        let mut v = vec![];
        loop {
            let any = t.run();
            let got = self.drain();
            if !any && got.is_empty() {
                return v;
            }
            v.extend(got);
        }
    }
}

// ---- C10 ----

/// A client request whose answer must be a number.
enum AskNum {}
impl request::Request for AskNum {
    type Params = u32;
    type Result = u32;
    const METHOD: &'static str = "t/number";
}

struct Asked {
    /// `None` when its future was dropped.
    t: Option<Task<Result<Value>>>,
    typed: bool,
    id: Option<i64>,
    want: Option<Result<Value>>,
    sent_after_drop: bool,
}

struct Ids {
    s: Side,
    qs: Vec<Asked>,
}
impl Ids {
    fn ask(&mut self, typed: bool) {
        let k = self.qs.len() as u32;
        let c = self.s.client();
        let f: Pf<Result<Value>> = if typed {
            Box::pin(async move { c.send_request::<AskNum>(k).await.map(Value::from) })
        } else {
            Box::pin(async move { c.send_request::<Ask>(k).await })
        };
        let mut t = Task::new(f);
        t.run();
        self.qs.push(Asked { t: Some(t), typed, id: None, want: None, sent_after_drop: false });
    }
    fn pull(&mut self) -> bool {
        let r = match self.s.sock.next() {
            Poll::Ready(Some(r)) => r,
            Poll::Ready(None) => sym::fail("C10: the stream of client requests ended"),
            Poll::Pending => return false,
        };
        let k = r.params().and_then(|p| p.as_u64()).unwrap_or(99) as usize;
        sym::check(k < self.qs.len() && self.qs[k].id.is_none(), "C10: something else was sent than was asked for, or twice");
        sym::check(r.method() == if self.qs[k].typed { "t/number" } else { "t/asked" }, "C10: wrong method");
        let id = match r.id() {
            Some(Id::Number(n)) => *n,
            Some(Id::String(_)) => 1000,
            _ => sym::fail("C10: a request was sent without an id"),
        };
        for q in &self.qs {
            sym::check(q.id != Some(id), "C10: two requests carry the same id");
        }
        self.qs[k].id = Some(id);
        true
    }
    fn respond(&mut self, id: Id, body: Result<Value>) {
        sym::check(self.s.sock.respond(Response::from_parts(id, body)), "C10: a response was refused");
    }
    fn run(&mut self) {
        loop {
            let mut any = false;
            for q in self.qs.iter_mut() {
                if let Some(t) = &mut q.t {
                    any |= t.run();
                }
            }
            if !any {
                break;
            }
        }
        for q in &self.qs {
            if let Some(t) = &q.t {
                match (&q.want, &t.out) {
                    (None, None) => {}
                    (Some(Ok(w)), Some(Ok(v))) => sym::check(w == v, "C10: a request resolved with another response than its own"),
                    (Some(Err(w)), Some(Err(e))) => {
                        // A result of the wrong shape: any error will do.
                        sym::check(w.code == ErrorCode::ServerError(0) || w == e, "C10: an error response was not returned as it came")
                    }
                    (None, Some(_)) => sym::fail("C10: a request resolved without a response of its own"),
                    (Some(_), None) => sym::fail("C10: a request did not resolve although its response arrived"),
                    _ => sym::fail("C10: a request resolved with success instead of failure or the other way round"),
                }
            }
        }
    }
}

fn ids(asks: usize, steps: usize, lazy: bool) {
    let mut d = Ids { s: Side::up(false), qs: vec![] };
    for _ in 0..steps {
        match if lazy { sym::pick(&[0, 1, 2, 4, 6]) } else { sym::choose(6) } {
            0 => {
                sym::assume(d.qs.len() < asks);
                let typed = !lazy && sym::flip();
                d.ask(typed);
            }
            1 => {
                let b = d.pull();
                sym::assume(b);
            }
            2 => {
                let open: Vec<usize> = (0..d.qs.len()).filter(|k| d.qs[*k].id.is_some() && d.qs[*k].want.is_none()).collect();
                sym::assume(!open.is_empty());
                let k = open[sym::choose(open.len())];
                if d.qs[k].t.is_none() {
                    sym::reach(3);
                }
                let v = sym::u32();
                let (body, want) = match if lazy { 0 } else { sym::choose(3) } {
                    0 => (Ok(Value::from(v)), Ok(Value::from(v))),
                    1 => {
                        let e = Error { code: ErrorCode::from(v as i64 + 1), message: "no".into(), data: Some(Value::from(v)) };
                        (Err(e.clone()), Err(e))
                    }
                    _ => {
                        let x = json!({ "x": v });
                        sym::reach(4);
                        (Ok(x.clone()), if d.qs[k].typed { Err(Error::new(ErrorCode::ServerError(0))) } else { Ok(x) })
                    }
                };
                d.qs[k].want = Some(want);
                let id = Id::Number(d.qs[k].id.unwrap());
                d.respond(id, body);
                sym::reach(2);
            }
            // Responses nobody waits for.
            3 => {
                let id = match sym::choose(3) {
                    0 => Id::Null,
                    1 => Id::String(ascii(1)),
                    _ => Id::Number(sym::i64()),
                };
                // Requests that were issued but not sent yet own an id the harness does not know.
                for q in &d.qs {
                    if let Id::Number(i) = id {
                        sym::assume(q.id.is_some() && (q.want.is_some() || q.id != Some(i)));
                    }
                }
                sym::reach(5);
                d.respond(id, Ok(json!(7)));
            }
            4 => {
                let open: Vec<usize> = (0..d.qs.len()).filter(|k| d.qs[*k].t.as_ref().map_or(false, |t| !t.done())).collect();
                sym::assume(!open.is_empty());
                let k = open[sym::choose(open.len())];
                d.qs[k].t = None;
                sym::reach(6);
            }
            // One caller is polled.
            6 => {
                let k = sym::choose(d.qs.len().max(1));
                sym::assume(k < d.qs.len() && d.qs[k].t.as_mut().map_or(false, |t| t.run()));
            }
            // A second response to the same request.
            _ => {
                let done: Vec<usize> = (0..d.qs.len()).filter(|k| d.qs[*k].want.is_some()).collect();
                sym::assume(!done.is_empty());
                let id = d.qs[done[sym::choose(done.len())]].id.unwrap();
                d.respond(Id::Number(id), Ok(json!(8)));
                sym::reach(7);
            }
        }
        if !lazy {
            d.run();
        }
    }
    d.run();
    while d.pull() {
        d.run();
    }
    // Requests whose future was dropped may or may not have been sent.
    for k in 0..d.qs.len() {
        if d.qs[k].t.is_some() {
            let id = match d.qs[k].id {
                Some(id) => id,
                None => sym::fail("C10: a request was never sent"),
            };
            if d.qs[k].want.is_none() {
                d.qs[k].want = Some(Ok(Value::from(k as u64)));
                d.respond(Id::Number(id), Ok(Value::from(k as u64)));
                d.run();
            }
        }
    }
    for q in &d.qs {
        sym::log(q.id.map_or(99, |i| i as u64));
        let _ = q.sent_after_drop;
    }
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c10_a() {
    ids(2, 5, false)
}
#[no_mangle]
pub extern "C" fn h_c10_a_t() {
    ids(3, 6, false)
}
/// The same, but the callers are not polled after every event.
#[no_mangle]
pub extern "C" fn h_c10_d() {
    ids(3, 8, true)
}
#[no_mangle]
pub extern "C" fn h_c10_d_t() {
    ids(3, 10, true)
}
/// A request that is answered only after very many more have been made.
#[no_mangle]
pub extern "C" fn h_c10_e() {
    let mut d = Ids { s: Side::up(false), qs: vec![] };
    d.ask(false);
    d.pull();
    let first = Id::Number(d.qs[0].id.unwrap());
    let c = d.s.client();
    let mut seen = vec![false; 1 << 17];
    for _ in 0..70_000 {
        let id = c.next_request_id();
        let bad = id == first
            || match id {
                Id::Number(n @ 0..0x1ffff) => std::mem::replace(&mut seen[n as usize], true),
                _ => false,
            };
        if bad {
            sym::fail("C10: two requests carry the same id");
        }
    }
    d.qs[0].want = Some(Ok(json!(5)));
    d.respond(first, Ok(json!(5)));
    d.run();
    sym::reach(1);
}

/// `n` requests in flight at once through different clones, answered in any order.
fn order(n: usize) {
    let mut d = Ids { s: Side::up(sym::flip()), qs: vec![] };
    for _ in 0..n {
        d.ask(false);
    }
    loop {
        d.run();
        if !d.pull() {
            break;
        }
    }
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let k = left.remove(sym::choose(left.len()));
        let v = Value::from(sym::i64());
        d.qs[k].want = Some(Ok(v.clone()));
        let id = match d.qs[k].id {
            Some(id) => Id::Number(id),
            None => sym::fail("C10: a request was never sent"),
        };
        d.respond(id, Ok(v));
        d.run();
    }
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c10_b() {
    order(4)
}
#[no_mangle]
pub extern "C" fn h_c10_b_t() {
    order(5)
}

/// Ids handed out by `next_request_id` and used by requests never repeat, whichever clone is asked.
#[no_mangle]
pub extern "C" fn h_c10_c() {
    let mut s = Side::up(false);
    let c = [s.client(), s.client(), W.get().client.clone().unwrap()];
    let mut ids: Vec<Id> = vec![];
    let mut ts = vec![];
    for _ in 0..4 {
        let k = sym::choose(3);
        let c1 = c[k].clone();
        match sym::choose(3) {
            0 => ids.push(c1.next_request_id()),
            1 => {
                let mut t: Task<Result<Value>> = Task::new(async move { c1.send_request::<Ask>(1).await });
                let got = s.pump(&mut t);
                sym::check(got.len() == 1 && got[0].id().is_some(), "C10: a request was not sent once with an id");
                ids.push(got[0].id().unwrap().clone());
                ts.push(t);
            }
            // The client handle is a service itself.
            _ => {
                let mut c1 = c1;
                let id = c1.next_request_id();
                let v = sym::i64();
                let mut t = Task::new(c1.call(Request::build("t/x").id(id.clone()).finish()));
                let got = s.pump(&mut t);
                sym::check(got.len() == 1 && got[0].id() == Some(&id) && !t.done(), "C10: a request was not sent once");
                s.sock.respond(Response::from_ok(id.clone(), Value::from(v)));
                t.run();
                match t.out {
                    Some(Ok(Some(ref r))) => sym::check(r.id() == &id && r.result() == Some(&Value::from(v)), "C10: another response than its own"),
                    _ => sym::fail("C10: a request did not resolve with its response"),
                }
                ids.push(id);
            }
        }
    }
    for i in 0..ids.len() {
        for j in 0..i {
            sym::check(ids[i] != ids[j], "C10: two requests carry the same id");
        }
    }
    for t in ts {
        sym::check(!t.done(), "C10: a request resolved without a response of its own");
    }
    sym::reach(1);
}

// ---- C11 and C19: the typed calls ----

/// One call of the client handle with what it must emit.
struct Op {
    t: Task<Result<Value>>,
    method: &'static str,
    /// `None`: no params (absent or null).
    params: Option<Value>,
    /// For requests: an answer, and the value the call must return for it.
    answer: Option<(Value, Value)>,
    /// An answer of the wrong shape.
    bad: Option<Value>,
}

fn op<T>(f: impl Future<Output = T> + 'static, conv: impl FnOnce(T) -> Result<Value> + 'static) -> Task<Result<Value>> {
    Task::new(async move { conv(f.await) })
}
fn unit(r: Result<()>) -> Result<Value> {
    r.map(|_| Value::Null)
}

pub const OPS: usize = 17;
/// The calls the lifecycle does not gate.
const FREE: &[usize] = &[2, 3, 4, 6];

fn text(n: usize) -> String {
    ascii(n)
}
fn options() -> (Option<Value>, bool) {
    if sym::flip() {
        (Some(json!({"a": [1, null]})), true)
    } else {
        (None, false)
    }
}
fn obj(pairs: Vec<(&str, Value)>) -> Value {
    let mut m = Map::new();
    for (k, v) in pairs {
        m.insert(k.to_string(), v);
    }
    Value::Object(m)
}
fn uri() -> (Url, Value) {
    (Url::parse("file:///a/b").unwrap(), Value::from("file:///a/b"))
}
fn range() -> (Range, Value) {
    let v = sym::u32();
    (
        Range { start: Position { line: v, character: 2 }, end: Position { line: 3, character: v } },
        json!({"start": {"line": v, "character": 2}, "end": {"line": 3, "character": v}}),
    )
}
fn msg_type() -> (MessageType, Value) {
    let n = sym::choose(4);
    ([MessageType::ERROR, MessageType::WARNING, MessageType::INFO, MessageType::LOG][n], Value::from(n as i64 + 1))
}

fn make(c: Client, which: usize) -> Op {
    let null = || Some((Value::Null, Value::Null));
    let wrong = || Some(json!("x"));
    match which {
        0 => {
            let (o, has) = options();
            let (id, method) = (text(1), text(1));
            let mut p = vec![("id", Value::from(id.clone())), ("method", Value::from(method.clone()))];
            if has {
                p.push(("registerOptions", o.clone().unwrap()));
            }
            let n = sym::choose(3);
            let v = vec![Registration { id, method, register_options: o }; n];
            Op {
                t: op(async move { c.register_capability(v).await }, unit),
                method: "client/registerCapability",
                params: Some(json!({ "registrations": vec![obj(p); n] })),
                answer: null(),
                bad: wrong(),
            }
        }
        1 => {
            let (id, method) = (text(1), text(1));
            let p = json!({"id": id.clone(), "method": method.clone()});
            let n = sym::choose(3);
            let v = vec![Unregistration { id, method }; n];
            Op {
                t: op(async move { c.unregister_capability(v).await }, unit),
                method: "client/unregisterCapability",
                params: Some(json!({ "unregisterations": vec![p; n] })),
                answer: null(),
                bad: wrong(),
            }
        }
        2 | 3 => {
            let ((ty, tv), m) = (msg_type(), text(2));
            let params = Some(json!({"type": tv, "message": m.clone()}));
            if which == 2 {
                Op {
                    t: op(async move { c.show_message(ty, m).await }, |_| Ok(Value::Null)),
                    method: "window/showMessage",
                    params,
                    answer: None,
                    bad: None,
                }
            } else {
                Op {
                    t: op(async move { c.log_message(ty, m).await }, |_| Ok(Value::Null)),
                    method: "window/logMessage",
                    params,
                    answer: None,
                    bad: None,
                }
            }
        }
        4 => {
            let ((ty, tv), m) = (msg_type(), text(1));
            let title = text(1);
            let mut p = vec![("type", tv), ("message", Value::from(m.clone()))];
            let actions = if sym::flip() {
                p.push(("actions", json!([{ "title": title.clone() }])));
                Some(vec![MessageActionItem { title: title.clone(), properties: Default::default() }])
            } else {
                None
            };
            let ans = if sym::flip() { Value::Null } else { json!({ "title": title }) };
            Op {
                t: op(async move { c.show_message_request(ty, m, actions).await }, |r| r.map(|v| serde_json::to_value(v).unwrap())),
                method: "window/showMessageRequest",
                params: Some(obj(p)),
                answer: Some((ans.clone(), ans)),
                bad: Some(json!({"title": 1})),
            }
        }
        5 => {
            let (u, uv) = uri();
            let mut p = vec![("uri", uv)];
            let mut flag = |name: &'static str| match sym::choose(3) {
                0 => None,
                n => {
                    p.push((name, Value::from(n == 1)));
                    Some(n == 1)
                }
            };
            let (external, take_focus) = (flag("external"), flag("takeFocus"));
            let selection = if sym::flip() {
                let (r, rv) = range();
                p.push(("selection", rv));
                Some(r)
            } else {
                None
            };
            let q = ShowDocumentParams { uri: u, external, take_focus, selection };
            let b = sym::flip();
            Op {
                t: op(async move { c.show_document(q).await }, |r| r.map(Value::from)),
                method: "window/showDocument",
                params: Some(obj(p)),
                answer: Some((json!({ "success": b }), Value::from(b))),
                bad: Some(Value::from(b)),
            }
        }
        6 => {
            let v = match sym::choose(6) {
                0 => Value::Null,
                1 => Value::from(sym::flip()),
                2 => Value::from(sym::i64()),
                3 => Value::from(text(1)),
                4 => json!([sym::u32()]),
                _ => json!({ "a": sym::u32() }),
            };
            let want = match v {
                Value::Null => None,
                Value::Array(_) | Value::Object(_) => Some(v.clone()),
                _ => Some(Value::Array(vec![v.clone()])),
            };
            Op {
                t: op(async move { c.telemetry_event(v).await }, |_| Ok(Value::Null)),
                method: "telemetry/event",
                params: want,
                answer: None,
                bad: None,
            }
        }
        7 | 8 | 9 | 10 | 11 => {
            let (t, method) = match which {
                7 => (op(async move { c.code_lens_refresh().await }, unit), "workspace/codeLens/refresh"),
                8 => (op(async move { c.semantic_tokens_refresh().await }, unit), "workspace/semanticTokens/refresh"),
                9 => (op(async move { c.inline_value_refresh().await }, unit), "workspace/inlineValue/refresh"),
                10 => (op(async move { c.inlay_hint_refresh().await }, unit), "workspace/inlayHint/refresh"),
                _ => (op(async move { c.workspace_diagnostic_refresh().await }, unit), "workspace/diagnostic/refresh"),
            };
            Op { t, method, params: None, answer: null(), bad: wrong() }
        }
        12 => {
            let (u, uv) = uri();
            let (r, rv) = range();
            let m = text(1);
            let n = sym::choose(3);
            let mut p = vec![("uri", uv), ("diagnostics", Value::from(vec![json!({"range": rv, "message": m.clone()}); n]))];
            let version = if sym::flip() {
                let v = sym::u32() as i32;
                p.push(("version", Value::from(v)));
                Some(v)
            } else {
                None
            };
            let d = vec![Diagnostic { range: r, message: m, ..Default::default() }; n];
            Op {
                t: op(async move { c.publish_diagnostics(u, d, version).await }, |_| Ok(Value::Null)),
                method: "textDocument/publishDiagnostics",
                params: Some(obj(p)),
                answer: None,
                bad: None,
            }
        }
        13 => {
            let n = sym::choose(3);
            let (section, has) = if sym::flip() { (Some(text(1)), true) } else { (None, false) };
            let (u, uv) = uri();
            let (scope_uri, scoped) = if sym::flip() { (Some(u), true) } else { (None, false) };
            let mut p = vec![];
            if has {
                p.push(("section", Value::from(section.clone().unwrap())));
            }
            if scoped {
                p.push(("scopeUri", uv));
            }
            let v = vec![ConfigurationItem { scope_uri, section }; n];
            let ans = Value::from(vec![json!([sym::u32()]), Value::Null]);
            Op {
                t: op(async move { c.configuration(v).await }, |r| r.map(Value::from)),
                method: "workspace/configuration",
                params: Some(json!({ "items": vec![obj(p); n] })),
                answer: Some((ans.clone(), ans)),
                bad: Some(Value::Null),
            }
        }
        14 => {
            let ans = match sym::choose(3) {
                0 => Value::Null,
                1 => json!([]),
                _ => json!([{"uri": "file:///a/b", "name": text(1)}]),
            };
            Op {
                t: op(async move { c.workspace_folders().await }, |r| r.map(|v| serde_json::to_value(v).unwrap())),
                method: "workspace/workspaceFolders",
                params: None,
                answer: Some((ans.clone(), ans)),
                bad: wrong(),
            }
        }
        15 => {
            let (u, _) = uri();
            let (r, rv) = range();
            let m = text(1);
            let (edit, ev) = if sym::flip() {
                (
                    WorkspaceEdit::new([(u, vec![TextEdit::new(r, m.clone())])].into_iter().collect()),
                    json!({"changes": {"file:///a/b": [{"range": rv, "newText": m}]}}),
                )
            } else {
                (WorkspaceEdit::default(), json!({}))
            };
            let ans = if sym::flip() { json!({"applied": false, "failureReason": text(1)}) } else { json!({"applied": true}) };
            Op {
                t: op(async move { c.apply_edit(edit).await }, |r| r.map(|v| serde_json::to_value(v).unwrap())),
                method: "workspace/applyEdit",
                params: Some(json!({ "edit": ev })),
                answer: Some((ans.clone(), ans)),
                bad: Some(json!({})),
            }
        }
        _ => {
            let n = sym::u32();
            Op {
                t: op(async move { c.send_notification::<Told>(vec![n]).await }, |_| Ok(Value::Null)),
                method: "t/told",
                params: Some(json!([n])),
                answer: None,
                bad: None,
            }
        }
    }
}

fn same(params: Option<&Value>, want: &Option<Value>) -> bool {
    match (params, want) {
        (p, None) => p.is_none() || p == Some(&Value::Null),
        (p, Some(_)) => p == want.as_ref(),
    }
}

/// Requests are only answered with success.
static BRIEF: Cell1<bool> = Cell1::new(false);

/// The call must emit exactly its message and return what the client answers.
fn emits(s: &mut Side, mut o: Op, prop: u32) {
    let msg = |a, b| if prop == 11 { a } else { b };
    let got = s.pump(&mut o.t);
    sym::check(got.len() == 1, msg("C11: a call that is allowed did not emit its message", "C19: a call did not emit exactly one message"));
    let r = &got[0];
    sym::check(r.method() == o.method, msg("C11: wrong method", "C19: wrong method"));
    sym::check(same(r.params(), &o.params), msg("C11: wrong params", "C19: the params given were not sent"));
    sym::check(r.id().is_some() == o.answer.is_some(), msg("C11: a request without an id or a notification with one", "C19: a request without an id or a notification with one"));
    sym::log(r.method().len() as u64);
    let (ans, want) = match o.answer {
        None => {
            sym::check(o.t.done(), msg("C11: a notification did not finish", "C19: a notification did not finish"));
            return;
        }
        Some(a) => a,
    };
    sym::check(!o.t.done(), msg("C11: a request finished without an answer", "C19: a request finished without an answer"));
    let id = r.id().unwrap().clone();
    let kind = if *BRIEF.get() { 0 } else { sym::choose(3) };
    let code = if prop == 11 || kind != 1 { ErrorCode::RequestCancelled } else { ErrorCode::from(sym::i64()) };
    let data = if kind == 1 && prop != 11 && sym::flip() { Some(json!([sym::u32()])) } else { None };
    let e = Error { code, message: if prop == 11 || kind != 1 { "m".into() } else { text(1).into() }, data };
    let ok = s.sock.respond(match kind {
        0 => Response::from_ok(id, ans),
        1 => Response::from_error(id, e.clone()),
        _ => Response::from_ok(id, o.bad.unwrap()),
    });
    sym::check(ok, msg("C11: an answer was refused", "C19: an answer was refused"));
    let more = s.pump(&mut o.t);
    sym::check(more.is_empty(), msg("C11: a second message", "C19: a call emitted a second message"));
    match (kind, &o.t.out) {
        (_, None) => sym::fail(msg("C11: a request did not finish", "C19: a request did not finish when it was answered")),
        (0, Some(Ok(v))) => sym::check(v == &want, msg("C11: wrong result", "C19: a call returned something else than the client answered")),
        (1, Some(Err(x))) => sym::check(x == &e, msg("C11: wrong error", "C19: a call returned another error than the client answered")),
        (2, Some(Err(_))) => {}
        (2, Some(Ok(_))) => sym::fail(msg("C11: wrong result", "C19: a result of the wrong shape was accepted")),
        _ => sym::fail(msg("C11: wrong result", "C19: success and failure of a call were mixed up")),
    }
}

#[no_mangle]
pub extern "C" fn h_c19_a() {
    let mut s = Side::up(false);
    let which = sym::choose(OPS);
    let c = s.client();
    emits(&mut s, make(c, which), 19);
    sym::reach(1);
}
/// Two calls one after the other.
#[no_mangle]
pub extern "C" fn h_c19_b() {
    let mut s = Side::up(true);
    for _ in 0..2 {
        let which = sym::pick(&[2, 4, 7, 13, 16]);
        let c = s.client();
        emits(&mut s, make(c, which), 19);
    }
    sym::reach(1);
}

/// The call must emit nothing; requests must fail (with `code`, if given).
fn mute(s: &mut Side, o: Op, code: Option<i64>) {
    let mut o = o;
    let got = s.pump(&mut o.t);
    sym::check(got.is_empty(), "C11: a message was emitted in a phase that forbids it");
    match &o.t.out {
        None => sym::fail("C11: a call that is not allowed did not return"),
        Some(r) => {
            if o.answer.is_some() {
                match r {
                    Ok(_) => sym::fail("C11: a request succeeded without an answer"),
                    Err(e) => sym::check(code.map_or(true, |c| e.code.code() == c), "C11: a request failed with the wrong error"),
                }
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c11_a() {
    phases(sym::choose(OPS), false)
}
/// The calls the lifecycle does not gate, and ordinary ones that follow them.
#[no_mangle]
pub extern "C" fn h_c11_b() {
    phases(sym::pick(&[2, 4, 6, 7, 16]), true)
}
fn phases(which: usize, twice: bool) {
    *BRIEF.get() = twice;
    let mut s = Side::new(false);
    let init = || Request::build("initialize").params(init_params(0)).id(99).finish();
    let mut hold = None;
    // 0 before, 1 allowed, 2 exited
    let phase = match sym::choose(9) {
        0 => 0,
        // initialize is in progress
        1 => {
            let mut t = Task::new(s.svc.call(init()));
            t.run();
            sym::check(!t.done(), "initialize waits");
            hold = Some(t);
            0
        }
        // initialize has failed
        2 => {
            W.get().slots[0].fail = true;
            GATES[0].get().release();
            s.call(init());
            0
        }
        // initialize was cancelled
        3 => {
            let mut t = Task::new(s.svc.call(init()));
            t.run();
            s.call(Request::build("$/cancelRequest").params(json!({"id": 99})).finish());
            t.run();
            sym::check(t.done(), "initialize is cancelled");
            0
        }
        // Everything refused so far
        4 => {
            s.call(Request::build("t/req").params(json!(1)).id(1).finish());
            s.call(Request::build("shutdown").id(2).finish());
            0
        }
        5 => {
            GATES[0].get().release();
            s.call(init());
            1
        }
        6 => {
            GATES[0].get().release();
            GATES[K_SHUTDOWN].get().release();
            s.call(init());
            s.call(Request::build("shutdown").id(2).finish());
            1
        }
        7 => {
            s.call(Request::build("exit").finish());
            2
        }
        _ => {
            GATES[0].get().release();
            s.call(init());
            if sym::flip() {
                s.call(Request::build("shutdown").id(2).finish());
            }
            s.call(Request::build("exit").finish());
            2
        }
    };
    let mut which = which;
    for _ in 0..=(twice as usize) {
        let o = make(s.client(), which);
        let free = FREE.contains(&which);
        match phase {
            1 => {
                sym::reach(2);
                emits(&mut s, o, 11)
            }
            0 if free => {
                sym::reach(3);
                emits(&mut s, o, 11)
            }
            0 => {
                sym::reach(4);
                mute(&mut s, o, Some(-32002))
            }
            _ => {
                sym::reach(5);
                mute(&mut s, o, None)
            }
        }
        if twice {
            which = sym::pick(&[3, 8, 13]);
        }
    }
    drop(hold);
    sym::reach(1);
}

/// What a handler calls while `initialize` is in progress, and what was sent when `exit` arrives.
#[no_mangle]
pub extern "C" fn h_c11_c() {
    let mut s = Side::up(false);
    let which = sym::choose(OPS);
    let c = s.client();
    let mut o = make(c, which);
    o.t.run();
    // Not taken from the socket before `exit`.
    s.call(Request::build("exit").finish());
    let got = s.pump(&mut o.t);
    sym::check(got.is_empty(), "C11: a message was emitted after exit");
    sym::check(matches!(s.sock.next(), Poll::Ready(None)), "C11: the stream of client requests did not end at exit");
    let id = Id::Number(0);
    sym::check(!s.sock.respond(Response::from_ok(id, Value::Null)), "C11: a response was accepted after exit");
    sym::reach(1);
}

// ---- C18 ----

enum P {
    Un(tower_lsp::Progress<tower_lsp::Unbounded, tower_lsp::NotCancellable>),
    Uc(tower_lsp::Progress<tower_lsp::Unbounded, tower_lsp::Cancellable>),
    Bn(tower_lsp::Progress<tower_lsp::Bounded, tower_lsp::NotCancellable>),
    Bc(tower_lsp::Progress<tower_lsp::Bounded, tower_lsp::Cancellable>),
}
enum O {
    Un(tower_lsp::OngoingProgress<tower_lsp::Unbounded, tower_lsp::NotCancellable>),
    Uc(tower_lsp::OngoingProgress<tower_lsp::Unbounded, tower_lsp::Cancellable>),
    Bn(tower_lsp::OngoingProgress<tower_lsp::Bounded, tower_lsp::NotCancellable>),
    Bc(tower_lsp::OngoingProgress<tower_lsp::Bounded, tower_lsp::Cancellable>),
}

struct Prog {
    s: Side,
    token: Value,
}
impl Prog {
    fn send<T: 'static>(&mut self, f: impl Future<Output = T> + 'static, pairs: Vec<(&str, Value)>) -> T {
        let mut t = Task::new(f);
        let got = self.s.pump(&mut t);
        sym::check(got.len() == 1, "C18: not exactly one message for one step of a progress");
        let r = &got[0];
        sym::check(r.method() == "$/progress" && r.id().is_none(), "C18: something else was sent than a $/progress notification");
        let p = r.params().cloned().unwrap_or(Value::Null);
        sym::check(p["token"] == self.token, "C18: wrong token");
        let mut v = p["value"].clone();
        let mut want = obj(pairs);
        // Without a cancel button, `cancellable` may be absent from `begin`.
        if v["kind"] == "begin" && want["cancellable"] == false {
            if let (Some(m), Some(w)) = (v.as_object_mut(), want.as_object_mut()) {
                w.remove("cancellable");
                if m.get("cancellable") == Some(&Value::Bool(false)) {
                    m.remove("cancellable");
                }
            }
        }
        sym::check(v == want, "C18: wrong content of a progress message");
        sym::log(want.as_object().map_or(0, |m| m.len()) as u64);
        match t.out {
            Some(x) => x,
            None => sym::fail("C18: a step of a progress did not finish"),
        }
    }
}

fn any_text() -> String {
    text(sym::choose(2))
}

fn token() -> (ProgressToken, Value) {
    if sym::flip() {
        let n = sym::u32() as i32;
        (NumberOrString::Number(n), Value::from(n))
    } else {
        let s = any_text();
        (NumberOrString::String(s.clone()), Value::from(s))
    }
}

fn button(v: &mut Vec<(&'static str, Value)>) -> Option<bool> {
    match sym::choose(3) {
        0 => None,
        n => {
            v.push(("cancellable", Value::from(n == 1)));
            Some(n == 1)
        }
    }
}

fn progress(reports: usize) {
    let s = Side::up(false);
    let (tok, tv) = token();
    let c = s.client();
    let mut d = Prog { s, token: tv };
    let title = any_text();
    let p = c.progress(tok.clone(), title.clone());
    let mut b: Vec<(&'static str, Value)> = vec![("kind", "begin".into()), ("title", title.into())];
    // The builder, in any order.
    let pct = sym::u32();
    let when = sym::choose(4); // when the message is set: never, first, between, last
    let m = if when > 0 { text(1) } else { String::new() };
    if when > 0 {
        b.push(("message", m.clone().into()));
    }
    macro_rules! msg {
        ($p:expr, $n:expr) => {
            if when == $n {
                $p.with_message(m.clone())
            } else {
                $p
            }
        };
    }
    let p = msg!(p, 1);
    let (bounded, cancellable) = (sym::flip(), sym::flip());
    b.push(("cancellable", cancellable.into()));
    if bounded {
        b.push(("percentage", pct.into()));
    }
    let p = match (bounded, cancellable) {
        (false, false) => P::Un(msg!(msg!(p, 2), 3)),
        (false, true) => P::Uc(msg!(msg!(p, 2).with_cancel_button(), 3)),
        (true, false) => P::Bn(msg!(msg!(p, 2).with_percentage(pct), 3)),
        (true, true) => {
            if sym::flip() {
                P::Bc(msg!(msg!(p.with_percentage(pct), 2).with_cancel_button(), 3))
            } else {
                P::Bc(msg!(msg!(p.with_cancel_button(), 2).with_percentage(pct), 3))
            }
        }
    };
    let mut o = match p {
        P::Un(p) => O::Un(d.send(async move { p.begin().await }, b)),
        P::Uc(p) => O::Uc(d.send(async move { p.begin().await }, b)),
        P::Bn(p) => O::Bn(d.send(async move { p.begin().await }, b)),
        P::Bc(p) => O::Bc(d.send(async move { p.begin().await }, b)),
    };
    for _ in 0..sym::choose(reports + 1) {
        sym::reach(2);
        let mut v: Vec<(&'static str, Value)> = vec![("kind", "report".into())];
        let (with, m, n) = (sym::flip(), any_text(), sym::u32());
        o = match o {
            O::Un(o) => {
                v.push(("message", m.clone().into()));
                O::Un(d.send(async move { o.report(m).await; o }, v))
            }
            O::Uc(o) => {
                if with {
                    let c = button(&mut v);
                    v.push(("message", m.clone().into()));
                    O::Uc(d.send(async move { o.report_with_message(m, c).await; o }, v))
                } else {
                    let c = sym::flip();
                    v.push(("cancellable", c.into()));
                    O::Uc(d.send(async move { o.report(c).await; o }, v))
                }
            }
            O::Bn(o) => {
                v.push(("percentage", n.into()));
                if with {
                    v.push(("message", m.clone().into()));
                    O::Bn(d.send(async move { o.report_with_message(m, n).await; o }, v))
                } else {
                    O::Bn(d.send(async move { o.report(n).await; o }, v))
                }
            }
            O::Bc(o) => {
                v.push(("percentage", n.into()));
                let c = button(&mut v);
                if with {
                    v.push(("message", m.clone().into()));
                    O::Bc(d.send(async move { o.report_with_message(m, n, c).await; o }, v))
                } else {
                    O::Bc(d.send(async move { o.report(n, c).await; o }, v))
                }
            }
        };
        if matches!(o, O::Bn(_) | O::Bc(_)) && sym::flip() {
            sym::reach(3);
            o = match o {
                O::Bn(o) => O::Un(o.into_unbounded()),
                O::Bc(o) => O::Uc(o.into_unbounded()),
                o => o,
            };
        }
    }
    let mut v: Vec<(&'static str, Value)> = vec![("kind", "end".into())];
    let m = if sym::flip() { Some(any_text()) } else { None };
    if let Some(m) = &m {
        v.push(("message", m.clone().into()));
    }
    macro_rules! end {
        ($o:expr) => {{
            let o = $o;
            sym::check(o.token() == &tok, "C18: wrong token");
            d.send(
                async move {
                    match m {
                        Some(m) => o.finish_with_message(m).await,
                        None => o.finish().await,
                    }
                },
                v,
            )
        }};
    }
    match o {
        O::Un(o) => end!(o),
        O::Uc(o) => end!(o),
        O::Bn(o) => end!(o),
        O::Bc(o) => end!(o),
    }
    sym::check(d.s.drain().is_empty(), "C18: something was sent after the end");
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c18_a() {
    progress(1)
}
#[no_mangle]
pub extern "C" fn h_c18_a_t() {
    progress(2)
}
/// Two progresses at a time whose messages interleave; nothing may leak from one to the other.
#[no_mangle]
pub extern "C" fn h_c18_b() {
    let s = Side::up(true);
    let c = s.client();
    let (ta, tb) = (token(), token());
    let (xa, xb) = (text(1), text(1));
    let pct = sym::u32();
    let pa = c.progress(ta.0, xa.clone()).with_message(xb.clone());
    let pb = c.progress(tb.0, xb.clone()).with_percentage(pct).with_cancel_button();
    let mut d = Prog { s, token: ta.1.clone() };
    let a = d.send(
        async move { pa.begin().await },
        vec![("kind", "begin".into()), ("title", xa.clone().into()), ("message", xb.clone().into()), ("cancellable", false.into())],
    );
    d.token = tb.1.clone();
    let b = d.send(
        async move { pb.begin().await },
        vec![("kind", "begin".into()), ("title", xb.clone().into()), ("percentage", pct.into()), ("cancellable", true.into())],
    );
    let (ma, mb) = (xa.clone(), xb.clone());
    d.token = ta.1.clone();
    let a = d.send(
        async move {
            a.report(ma).await;
            a
        },
        vec![("kind", "report".into()), ("message", xa.clone().into())],
    );
    d.token = tb.1.clone();
    let b = d.send(
        async move {
            b.report(pct, None).await;
            b
        },
        vec![("kind", "report".into()), ("percentage", pct.into())],
    );
    if sym::flip() {
        d.token = ta.1.clone();
        d.send(async move { a.finish().await }, vec![("kind", "end".into())]);
    }
    d.token = tb.1.clone();
    d.send(async move { b.finish_with_message(mb).await }, vec![("kind", "end".into()), ("message", xb.into())]);
    sym::reach(1);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c10_a", h_c10_a),
    ("h_c10_a_t", h_c10_a_t),
    ("h_c10_b", h_c10_b),
    ("h_c10_b_t", h_c10_b_t),
    ("h_c10_c", h_c10_c),
    ("h_c10_d", h_c10_d),
    ("h_c10_d_t", h_c10_d_t),
    ("h_c10_e", h_c10_e),
    ("h_c11_a", h_c11_a),
    ("h_c11_b", h_c11_b),
    ("h_c11_c", h_c11_c),
    ("h_c18_a", h_c18_a),
    ("h_c18_a_t", h_c18_a_t),
    ("h_c18_b", h_c18_b),
    ("h_c19_a", h_c19_a),
    ("h_c19_b", h_c19_b),
];
