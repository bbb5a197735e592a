//! C03: the output is a concatenation of whole, exact frames.

use crate::rt::*;
use crate::sym;
use crate::wire::*;
use futures::future::{self, Ready};
use serde_json::Value;
use std::task::{Context, Poll};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::Server;

/// Answers the requests in order with the prepared responses.
struct Say;
static ANSWERS: Cell1<Vec<Response>> = Cell1::new(vec![]);
impl Service<Request> for Say {
    type Response = Option<Response>;
    type Error = std::fmt::Error;
    type Future = Ready<Result<Self::Response, Self::Error>>;
    fn poll_ready(&mut self, _: &mut Context) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: Request) -> Self::Future {
        future::ok(Some(ANSWERS.get().remove(0)))
    }
}

/// A string of up to two arbitrary characters out of every class of UTF-8 lengths and escapes.
static SIMPLE: Cell1<bool> = Cell1::new(false);
fn text() -> String {
    let mut b = vec![];
    if *SIMPLE.get() {
        let c = sym::u8();
        sym::assume(c >= 0x20 && c < 0x7f && c != b'\\');
        return unsafe { String::from_utf8_unchecked(vec![0xc3, 0xa9, c]) };
    }
    match sym::choose(6) {
        0 => {}
        1 => {
            let c = sym::u8();
            sym::assume(c < 0x80);
            b.push(c);
        }
        2 => {
            let (c, d) = (sym::u8(), sym::u8());
            sym::assume(c < 0x80 && d < 0x80);
            b.extend_from_slice(&[c, d]);
        }
        3 => {
            let (c, d) = (sym::u8(), sym::u8());
            sym::assume(c >= 0xc2 && c < 0xe0 && d & 0xc0 == 0x80);
            b.extend_from_slice(&[c, d]);
        }
        4 => {
            let (c, d, e) = (sym::u8(), sym::u8(), sym::u8());
            sym::assume(c > 0xe0 && c < 0xf0 && c != 0xed && d & 0xc0 == 0x80 && e & 0xc0 == 0x80);
            b.extend_from_slice(&[c, d, e]);
        }
        _ => {
            let (c, d) = (sym::u8(), sym::u8());
            sym::assume(d & 0xc0 == 0x80 && c & 0xc0 == 0x80 && c >= 0x90);
            b.extend_from_slice(&[0xf1, d, c, 0xbf]);
        }
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// The JSON text of a string, written from the definition.
fn quoted(s: &str, out: &mut Vec<u8>) {
    out.push(b'"');
    for &c in s.as_bytes() {
        match c {
            b'"' => out.extend_from_slice(b"\\\""),
            b'\\' => out.extend_from_slice(b"\\\\"),
            8 => out.extend_from_slice(b"\\b"),
            9 => out.extend_from_slice(b"\\t"),
            10 => out.extend_from_slice(b"\\n"),
            12 => out.extend_from_slice(b"\\f"),
            13 => out.extend_from_slice(b"\\r"),
            0..=31 => {
                out.extend_from_slice(b"\\u00");
                out.push(b'0' + (c >> 4));
                let d = c & 15;
                out.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
            }
            c => out.push(c),
        }
    }
    out.push(b'"');
}

/// A message of the given kind and its JSON text.
enum Msg {
    Resp(Response),
    Req(Request),
}
fn msg(kind: usize) -> (Msg, Vec<u8>) {
    let s = text();
    let mut t = b"{\"jsonrpc\":\"2.0\",".to_vec();
    let m = match kind {
        0 => {
            t.extend_from_slice(b"\"result\":");
            quoted(&s, &mut t);
            t.extend_from_slice(b",\"id\":7");
            Msg::Resp(Response::from_ok(Id::Number(7), Value::String(s)))
        }
        1 => {
            t.extend_from_slice(b"\"error\":{\"code\":-32603,\"message\":");
            quoted(&s, &mut t);
            t.extend_from_slice(b"},\"id\":null");
            let e = Error { code: ErrorCode::InternalError, message: s.into(), data: None };
            Msg::Resp(Response::from_error(Id::Null, e))
        }
        2 => {
            t.extend_from_slice(b"\"result\":null,\"id\":");
            quoted(&s, &mut t);
            Msg::Resp(Response::from_ok(Id::String(s), Value::Null))
        }
        3 => {
            t.extend_from_slice(b"\"method\":\"m\",\"params\":[");
            quoted(&s, &mut t);
            t.push(b']');
            Msg::Req(Request::build("m").params(Value::Array(vec![Value::String(s)])).finish())
        }
        _ => {
            t.extend_from_slice(b"\"method\":");
            quoted(&s, &mut t);
            t.extend_from_slice(b",\"id\":1");
            Msg::Req(Request::build(s).id(1).finish())
        }
    };
    t.push(b'}');
    (m, t)
}

fn request() -> Vec<u8> {
    frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":0}")
}

fn json(b: &[u8]) -> Option<Value> {
    serde_json::from_slice(b).ok()
}
/// The whole output consists of the given texts, framed, in their order within each source.
fn exact(resps: &[Vec<u8>], reqs: &[Vec<u8>]) {
    let got = bodies(&OUT.get().data, true, "C03: the output is not a sequence of whole frames");
    sym::check(got.len() == resps.len() + reqs.len(), "C03: a message was lost or written twice");
    let (mut i, mut j) = (0, 0);
    for b in &got {
        let is = |k: usize, l: &[Vec<u8>]| k < l.len() && *b == l[k];
        // The same JSON may be written in another way.
        let same = |k: usize, l: &[Vec<u8>]| k < l.len() && matches!((json(b), json(&l[k])), (Some(a), Some(b)) if a == b);
        if is(i, resps) {
            i += 1;
        } else if is(j, reqs) {
            j += 1;
        } else if same(i, resps) {
            i += 1;
        } else if same(j, reqs) {
            j += 1;
        } else {
            sym::fail("C03: a body is not the JSON text of the message, or messages were reordered");
        }
    }
    sym::check(OUT.get().flushed == OUT.get().data.len(), "C03: output was not flushed");
    sym::log_bytes(&OUT.get().data);
    sym::reach(1);
}

/// `n` messages of any kind with arbitrary text, `stall` writes that accept little.
fn go(kinds: &[usize], chunk: usize, stalls: &[usize]) {
    let (mut resps, mut reqs) = (vec![], vec![]);
    let mut reads = vec![];
    OUT.get().chunk = chunk;
    if !stalls.is_empty() {
        OUT.get().room = Some(0);
    }
    let mut t = Task::new(Server::new(Reader(&IN), Writer(&OUT), RecLoop).serve(Say));
    for &k in kinds {
        let (m, text) = msg(k);
        match m {
            Msg::Resp(r) => {
                ANSWERS.get().push(r);
                reads.extend_from_slice(&request());
                resps.push(text);
            }
            Msg::Req(r) => {
                SEND.get().push(r);
                reqs.push(text);
            }
        }
    }
    IN.get().push(&reads);
    t.run();
    for &n in stalls {
        OUT.get().allow(Some(n));
        t.run();
        // Whatever is out so far is a beginning of the frames.
        bodies(&OUT.get().data, false, "");
    }
    OUT.get().allow(None);
    t.run();
    exact(&resps, &reqs);
    SEND.get().end = true;
    IN.get().close();
    t.run();
    sym::check(t.done(), "C03: serve does not end");
    exact(&resps, &reqs);
}

const KINDS: usize = 5;
/// One message of any kind with any text.
#[no_mangle]
pub extern "C" fn h_c03_a() {
    go(&[sym::choose(KINDS)], 0, &[]);
}
/// Three messages from both sources, written in pieces of `chunk` bytes.
#[no_mangle]
pub extern "C" fn h_c03_b() {
    let k = *sym::pick(&[&[0usize, 3, 1], &[3, 0, 4], &[2, 2, 3], &[4, 3, 0]]);
    *SIMPLE.get() = true;
    go(&k, sym::pick(&[1usize, 2, 7, 50]), &[]);
}
/// Two messages; the output stalls after any number of bytes.
#[no_mangle]
pub extern "C" fn h_c03_c() {
    let k = *sym::pick(&[&[0usize, 3], &[1, 2], &[3, 4]]);
    *SIMPLE.get() = true;
    let n = sym::choose(140);
    go(&k, 0, &[n]);
}
#[no_mangle]
pub extern "C" fn h_c03_c_t() {
    let k = *sym::pick(&[&[0usize, 3], &[1, 2], &[3, 4]]);
    *SIMPLE.get() = true;
    let n = sym::choose(140);
    let m = sym::choose(140);
    go(&k, 0, &[n, m]);
}
/// Bodies whose length is around a change in the number of its digits.
#[no_mangle]
pub extern "C" fn h_c03_d() {
    let n = sym::pick(&[60usize, 99, 100, 101, 999, 1000, 1001, 8191, 8192, 9999, 10000, 10001]);
    let over = b"{\"jsonrpc\":\"2.0\",\"result\":\"\",\"id\":7}".len();
    let c = plain();
    let mut s = vec![b'x'; n - over - 1];
    s.push(c);
    let s = unsafe { String::from_utf8_unchecked(s) };
    let mut t = b"{\"jsonrpc\":\"2.0\",\"result\":".to_vec();
    quoted(&s, &mut t);
    t.extend_from_slice(b",\"id\":7}");
    sym::check(t.len() == n, "length");
    ANSWERS.get().push(Response::from_ok(Id::Number(7), Value::String(s)));
    let (m, t2) = msg(3);
    if let Msg::Req(r) = m {
        SEND.get().push(r);
    }
    let mut task = Task::new(Server::new(Reader(&IN), Writer(&OUT), RecLoop).serve(Say));
    OUT.get().chunk = sym::pick(&[0usize, 4096]);
    IN.get().push(&request());
    task.run();
    exact(&[t], &[t2]);
}
/// Flushing blocks at times.
fn blocked(rounds: usize) {
    *SIMPLE.get() = true;
    let (mut resps, mut reqs) = (vec![], vec![]);
    let mut t = Task::new(Server::new(Reader(&IN), Writer(&OUT), RecLoop).serve(Say));
    for r in 0..rounds {
        OUT.get().hold = sym::flip();
        if sym::flip() {
            OUT.get().room = Some(20);
        }
        for k in 0..if r == 0 { 1 + sym::choose(2) } else { 1 } {
            let (m, text) = if r == 0 && k == 0 { msg(if sym::flip() { 3 } else { 0 }) } else { (Msg::Resp(Response::from_ok(Id::Number(4), Value::Null)), b"{\"jsonrpc\":\"2.0\",\"result\":null,\"id\":4}".to_vec()) };
            match m {
                Msg::Resp(r) => {
                    ANSWERS.get().push(r);
                    IN.get().push(&request());
                    resps.push(text);
                }
                Msg::Req(r) => {
                    SEND.get().push(r);
                    reqs.push(text);
                }
            }
            if sym::flip() {
                t.run();
            }
        }
        t.run();
        OUT.get().allow(None);
        if sym::flip() {
            t.run();
        }
        OUT.get().hold(false);
        t.run();
        exact(&resps, &reqs);
    }
    SEND.get().end = true;
    IN.get().close();
    t.run();
    sym::check(t.done(), "C03: serve does not end");
    exact(&resps, &reqs);
}
#[no_mangle]
pub extern "C" fn h_c03_e() {
    blocked(2)
}
#[no_mangle]
pub extern "C" fn h_c03_e_t() {
    blocked(3)
}
/// C23: a single flush that blocks.
#[no_mangle]
pub extern "C" fn h_c23_a() {
    let mut t = Task::new(Server::new(Reader(&IN), Writer(&OUT), RecLoop).serve(Rec));
    OUT.get().hold = true;
    OUT.get().room = Some(sym::choose(70));
    IN.get().push(&request());
    t.run();
    OUT.get().allow(None);
    t.run();
    OUT.get().hold(false);
    t.run();
    sym::check(!OUT.get().data.is_empty(), "C23: nothing was written");
    sym::reach(2);
    sym::check(OUT.get().flushed == OUT.get().data.len(), "C23: output stays unflushed after a flush that blocked");
    sym::reach(1);
}
/// C23: the same, once more has been written.
#[no_mangle]
pub extern "C" fn h_c23_b() {
    let mut t = Task::new(Server::new(Reader(&IN), Writer(&OUT), RecLoop).serve(Rec));
    let n = 1 + sym::choose(2);
    for _ in 0..n {
        OUT.get().hold = true;
        OUT.get().room = Some(sym::choose(70));
        IN.get().push(&request());
        t.run();
        OUT.get().allow(None);
        OUT.get().hold(false);
        t.run();
    }
    IN.get().push(&request());
    t.run();
    let all: Vec<Vec<u8>> = (0..=n).map(|_| b"{\"jsonrpc\":\"2.0\",\"result\":null,\"id\":0}".to_vec()).collect();
    exact(&all, &[]);
    SEND.get().end = true;
    IN.get().close();
    t.run();
    sym::check(t.done(), "C23: serve does not end");
    exact(&all, &[]);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c03_a", h_c03_a),
    ("h_c03_b", h_c03_b),
    ("h_c03_c", h_c03_c),
    ("h_c03_c_t", h_c03_c_t),
    ("h_c03_d", h_c03_d),
    ("h_c03_e", h_c03_e),
    ("h_c03_e_t", h_c03_e_t),
    ("h_c23_a", h_c23_a),
    ("h_c23_b", h_c23_b),
];
