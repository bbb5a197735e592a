//! C04, C09, C16, C17 and C20 over the whole server: framed messages in, framed messages out.

use crate::rt::*;
use crate::srv::*;
use crate::sym;
use crate::wire::*;
use serde_json::{json, Value};

/// A running server with the bookkeeping of what was sent to it.
struct Sess {
    t: Task<()>,
    /// (id, handler slot) of every request sent.
    reqs: Vec<(i64, usize)>,
    next: usize,
    /// Handler slots in the order their messages were sent.
    sent: Vec<usize>,
}

/// An arbitrary digit other than 0.
fn value() -> i64 {
    let d = digit();
    sym::assume(d != b'0');
    (d - b'0') as i64
}
fn num(v: &mut Vec<u8>, n: i64) {
    v.extend_from_slice(&dec(n as usize));
}
fn call(method: &str, k: usize, id: Option<i64>) -> Vec<u8> {
    let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"".to_vec();
    b.extend_from_slice(method.as_bytes());
    b.extend_from_slice(b"\",\"params\":");
    num(&mut b, k as i64);
    if let Some(id) = id {
        b.extend_from_slice(b",\"id\":");
        num(&mut b, id);
    }
    b.push(b'}');
    frame(&b)
}
const INIT: &[u8] = b"{\"jsonrpc\":\"2.0\",\"method\":\"initialize\",\"params\":{\"processId\":0,\"capabilities\":{}},\"id\":99}";

impl Sess {
    fn new(concurrency: Option<usize>) -> Self {
        let mut s = Sess { t: lsp_server(concurrency), reqs: vec![], next: 1, sent: vec![] };
        GATES[0].get().release();
        IN.get().push(&frame(INIT));
        s.t.run();
        sym::check(W.get().slots[0].finished == 1, "initialize runs");
        W.get().order.clear();
        W.get().max_running = 0;
        s.reqs.push((99, 0));
        s
    }
    fn push(&mut self, method: &str, request: bool) -> usize {
        W.get().slots[self.next].val = value();
        self.plain(method, request)
    }
    fn plain(&mut self, method: &str, request: bool) -> usize {
        let k = self.next;
        self.next += 1;
        let id = if request { Some(k as i64 * 3) } else { None };
        if let Some(id) = id {
            self.reqs.push((id, k));
        }
        self.sent.push(k);
        IN.get().push(&call(method, k, id));
        k
    }
    fn raw(&mut self, body: &str) {
        IN.get().push(&frame(body.as_bytes()));
    }
    fn run(&mut self) {
        self.t.run();
    }
    /// The responses and the other messages written so far.
    fn out(&self) -> (Vec<Value>, Vec<Value>) {
        written("the output is not a sequence of whole frames holding JSON").into_iter().partition(|v| v.get("method").is_none())
    }
    /// Request `id` has been answered `n` times by now, and correctly.
    fn answered(&self, resps: &[Value], id: i64, k: usize, n: usize, msg: &str) {
        let mut m = 0;
        for r in resps {
            if r["id"] == id {
                m += 1;
                if k != 0 {
                    sym::check(r.get("error").is_none() && r["result"] == outcome(k).unwrap(), "C04: wrong answer to a request");
                }
            }
        }
        sym::check(m == n, msg);
    }
    /// Every request has been answered exactly once if its handler has finished, else not at all.
    fn answers(&self) {
        let (resps, _) = self.out();
        for &(id, k) in &self.reqs {
            let n = W.get().slots[k].finished as usize;
            self.answered(&resps, id, k, n, "a finished request was not answered exactly once, or one in progress was");
        }
        sym::check(
            resps.len() == self.reqs.iter().filter(|r| W.get().slots[r.1].finished > 0).count(),
            "C04: something else was answered",
        );
    }
    fn release(&self, k: usize) {
        GATES[k].get().release();
    }
    fn open(&self, k: usize) -> bool {
        GATES[k].get().open
    }
    fn end(&mut self) {
        IN.get().close();
        self.run();
        sym::check(self.t.done(), "serve does not end although the input has ended and all handlers finished");
        sym::check(OUT.get().flushed == OUT.get().data.len(), "output was not flushed");
    }
}

/// The handlers that must be in progress: with limit `n`, the first `n` unfinished ones.
fn running(s: &Sess, n: usize) -> Vec<usize> {
    s.sent.iter().copied().filter(|k| W.get().slots[*k].finished == 0).take(n).collect()
}

/// C16: every history of `steps` arrivals and completions at concurrency level `n`.
fn concurrency(n: usize, steps: usize) {
    let mut s = Sess::new(if n == 4 { None } else { Some(n) });
    for _ in 0..steps {
        match sym::choose(3) {
            0 => {
                s.push("t/req", true);
            }
            1 => {
                s.push("t/note", false);
            }
            _ => {
                let waiting: Vec<usize> = s.sent.iter().copied().filter(|k| !s.open(*k)).collect();
                sym::assume(!waiting.is_empty());
                let k = waiting[sym::choose(waiting.len())];
                s.release(k);
            }
        }
        s.run();
        let w = W.get();
        sym::check(w.max_running <= n, "C16: more handlers than the limit were in progress at once");
        sym::check(w.order == s.sent[..w.order.len()], "C16: handlers did not start in the order of arrival");
        for k in &s.sent {
            // A handler that was started and released has finished.
            let c = &w.slots[*k];
            sym::check(c.started <= 1, "C16: a handler was started twice");
            sym::check(c.started == 0 || !s.open(*k) || c.finished == 1, "C16: a released handler did not finish");
        }
        let run = running(&s, n);
        for k in &run {
            sym::check(w.slots[*k].started == 1, "C16: a handler did not start although fewer than the limit were in progress");
        }
        sym::check(w.running == run.len(), "C16: another number of handlers is in progress than the limit and the arrivals demand");
        if run.len() == n {
            sym::reach(10);
        }
        s.answers();
        sym::log(w.order.len() as u64 * 16 + w.running as u64);
    }
    for k in 1..NK {
        s.release(k);
    }
    s.run();
    sym::check(W.get().order == s.sent, "C16: handlers did not start in the order of arrival");
    sym::check(n != 1 || W.get().max_running <= 1, "C16: two handlers at level 1");
    s.answers();
    s.end();
    s.answers();
    sym::reach(1);
}

/// C16 at level 1: the synchronous effects of a message happen after everything before it is done.
fn sequential() {
    let mut s = Sess::new(Some(1));
    let k = s.push("t/req", true);
    s.run();
    let what = sym::choose(3);
    match what {
        // A request after `shutdown` is refused, one before it is not.
        0 => s.raw("{\"jsonrpc\":\"2.0\",\"method\":\"shutdown\",\"id\":50}"),
        1 => s.raw("{\"jsonrpc\":\"2.0\",\"method\":\"t/unknown\",\"id\":50}"),
        _ => s.raw("{\"jsonrpc\":\"2.0\",\"method\":\"t/unknown\"}"),
    }
    GATES[K_SHUTDOWN].get().release();
    s.run();
    let j = s.push("t/note", false);
    s.run();
    sym::check(W.get().order == [k], "C16: a message was processed at level 1 before the one in front of it was complete");
    let (resps, _) = s.out();
    sym::check(resps.len() == 1, "C16: a message was answered at level 1 before the one in front of it");
    s.release(k);
    s.release(j);
    s.run();
    let (resps, _) = s.out();
    let ids: Vec<i64> = resps.iter().filter_map(|r| r["id"].as_i64()).collect();
    let want: &[i64] = if what < 2 { &[99, 3, 50] } else { &[99, 3] };
    sym::check(ids == want, "C16: responses at level 1 are not in the order of the requests");
    s.end();
    sym::reach(1);
}

#[no_mangle]
pub extern "C" fn h_c16_a() {
    let n = 1 + sym::choose(4);
    concurrency(n, 5)
}
#[no_mangle]
pub extern "C" fn h_c16_a_t() {
    let n = 1 + sym::choose(4);
    concurrency(n, 7)
}
#[no_mangle]
pub extern "C" fn h_c16_b() {
    sequential()
}
/// More messages than handlers may run, all arriving at once.
#[no_mangle]
pub extern "C" fn h_c16_c() {
    let n = 1 + sym::choose(5);
    let n = if n == 5 { 7 } else { n };
    let m = 8;
    let mut s = Sess::new(Some(n));
    for i in 0..m {
        s.plain(if i % 3 == 2 { "t/note" } else { "t/req" }, i % 3 != 2);
    }
    s.run();
    for left in (1..=m).rev() {
        let w = W.get();
        sym::check(w.running == left.min(n), "C16: not as many handlers in progress as the limit allows");
        sym::check(w.order == s.sent[..w.order.len()], "C16: handlers did not start in the order of arrival");
        sym::check(w.max_running <= n, "C16: more handlers than the limit were in progress at once");
        // The first or the last of those in progress finishes.
        let run = running(&s, n);
        let k = if sym::flip() { run[0] } else { run[run.len() - 1] };
        s.release(k);
        s.run();
        s.answers();
    }
    s.end();
    sym::reach(1);
}

/// C04: requests and notifications in any mix, finishing in any order, arriving in any pieces.
#[no_mangle]
pub extern "C" fn h_c04_d() {
    mix(3)
}
#[no_mangle]
pub extern "C" fn h_c04_d_t() {
    mix(4)
}
fn mix(n: usize) {
    let mut s = Sess::new(None);
    let ids: Vec<u8> = (0..n).map(|_| digit()).collect();
    let mut want = vec![];
    for i in 0..n {
        let k = s.next;
        s.next += 1;
        W.get().slots[k].val = value();
        let id = if sym::flip() { Some((ids[i] - b'0') as i64) } else { None };
        let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"".to_vec();
        b.extend_from_slice(if id.is_some() { b"t/req" } else { b"t/note" });
        b.extend_from_slice(b"\",\"params\":");
        num(&mut b, k as i64);
        if let Some(id) = id {
            for (w, _) in &want {
                sym::assume(*w != id);
            }
            b.extend_from_slice(b",\"id\":");
            b.push(ids[i]);
            want.push((id, k));
        }
        b.push(b'}');
        IN.get().push(&frame(&b));
        s.sent.push(k);
        if sym::flip() {
            s.run();
        }
    }
    let mut left = s.sent.clone();
    while !left.is_empty() {
        let k = left.remove(sym::choose(left.len()));
        s.release(k);
        s.run();
        let (resps, others) = s.out();
        sym::check(others.is_empty(), "C04: something was sent that no handler asked for");
        let done: Vec<_> = want.iter().filter(|w| !left.contains(&w.1)).collect();
        sym::check(resps.len() == 1 + done.len(), "C04: not exactly the finished requests have been answered");
        for (id, k) in done {
            s.answered(&resps, *id, *k, 1, "C04: a request was not answered exactly once with its id");
        }
    }
    s.end();
    sym::check(s.out().0.len() == 1 + want.len(), "C04: not exactly the requests have been answered");
    sym::reach(1);
}

/// C09 over the whole server: `exit` at any point; serve ends whatever follows.
#[no_mangle]
pub extern "C" fn h_c09_c() {
    exits(5)
}
#[no_mangle]
pub extern "C" fn h_c09_c_t() {
    exits(6)
}
fn exits(n: usize) {
    let mut s = match sym::choose(3) {
        0 => Sess { t: lsp_server(Some(2)), reqs: vec![], next: 1, sent: vec![] },
        _ => Sess::new(Some(2)),
    };
    let up = !s.reqs.is_empty();
    for _ in 0..sym::choose(n) {
        match sym::choose(4) {
            0 => {
                s.push("t/req", true);
            }
            1 => {
                s.push("t/note", false);
            }
            2 => s.release(s.next - 1),
            _ => {
                sym::assume(up);
                GATES[K_SHUTDOWN].get().release();
                s.raw("{\"jsonrpc\":\"2.0\",\"method\":\"shutdown\",\"id\":60}");
            }
        }
        s.run();
    }
    // Notification handlers are not cancelled by `exit`: let them finish.
    for k in s.sent.clone() {
        if !s.reqs.iter().any(|r| r.1 == k) {
            s.release(k);
        }
    }
    s.run();
    let live: Vec<(i64, usize)> =
        s.reqs.iter().copied().filter(|r| W.get().slots[r.1].started == 1 && W.get().slots[r.1].finished == 0).collect();
    let before = s.out().0.len();
    s.raw("{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}");
    // If all handlers the level allows are waiting, `exit` is handled when one finishes or input ends.
    s.run();
    let (resps, _) = s.out();
    sym::check(W.get().running == 0, "C09: a handler is still in progress after exit");
    for (id, _) in &live {
        sym::reach(9);
        let r: Vec<_> = resps.iter().filter(|r| r["id"] == *id).collect();
        sym::check(r.len() == 1 && r[0]["error"]["code"] == -32800, "C09: a request in flight at exit was not answered with -32800");
    }
    let _ = before;
    let started = W.get().order.len();
    let more = sym::choose(6);
    match more {
        0 => {}
        1 => {
            s.push("t/req", true);
        }
        2 => {
            s.push("t/note", false);
            s.push("t/req", true);
        }
        3 => s.raw("{\"jsonrpc\":\"2.0\",\"result\":1,\"id\":0}"),
        4 => s.raw("{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}"),
        _ => s.raw("{"),
    }
    for k in 1..NK {
        s.release(k);
    }
    s.run();
    sym::check(s.t.done() || more == 0 || more == 5, "C09: serve does not end although another message followed exit");
    sym::check(W.get().order.len() == started, "C09: a handler was started after exit");
    IN.get().close();
    s.run();
    sym::check(s.t.done(), "C09: serve does not end after exit");
    let (resps, _) = s.out();
    for (id, _) in &live {
        sym::check(resps.iter().filter(|r| r["id"] == *id).count() == 1, "C09: a cancelled request was answered twice");
    }
    sym::check(OUT.get().flushed == OUT.get().data.len(), "C09: output was not flushed");
    sym::log(resps.len() as u64);
    sym::reach(1);
}

/// C20: the input ends after `n` messages, handlers finish then, output may stall.
fn eof(n: usize) {
    let stall = sym::flip();
    let mut s = Sess::new(Some(2 + sym::choose(3)));
    if stall {
        OUT.get().room = Some(sym::pick(&[0usize, 10, 60]));
    }
    for _ in 0..n {
        match sym::choose(4) {
            0 => {
                s.push("t/req", true);
            }
            1 => {
                s.push("t/note", false);
            }
            2 => {
                let k = s.push("t/talk", true);
                W.get().slots[k].talk = 1 + sym::choose(3) as u32;
            }
            _ => {
                s.push("t/req", true);
                s.release(s.next - 1);
            }
        }
        if sym::flip() {
            s.run();
        }
    }
    match sym::choose(3) {
        0 => {}
        1 => IN.get().push(b"Content-Length: 30\r\n"),
        _ => IN.get().push(b"Content-Length: 30\r\n\r\n{\"jsonrpc\":\"2.0\",\"met"),
    }
    IN.get().close();
    s.run();
    let mut left: Vec<usize> = s.sent.iter().copied().filter(|k| !s.open(*k)).collect();
    while !left.is_empty() {
        sym::check(!s.t.done(), "C20: serve ended before its handlers");
        let k = left.remove(sym::choose(left.len()));
        s.release(k);
        s.run();
    }
    if stall {
        OUT.get().allow(None);
        s.run();
    }
    sym::check(s.t.done(), "C20: serve does not end after its input and all handlers have");
    sym::check(OUT.get().flushed == OUT.get().data.len(), "C20: output was not flushed before serve returned");
    let (mut resps, others) = s.out();
    // The truncated frame may be answered by one parse error.
    if let Some(i) = resps.iter().position(|r| r["id"].is_null()) {
        let r = resps.remove(i);
        sym::check(r["error"]["code"] == -32700, "C20: wrong answer to a truncated frame");
    }
    for &(id, k) in &s.reqs {
        s.answered(&resps, id, k, 1, "C20: a request was not answered exactly once by the end");
    }
    sym::check(resps.len() == s.reqs.len(), "C20: something else was answered");
    for k in &s.sent {
        sym::check(W.get().slots[*k].finished == 1, "C20: a handler did not finish");
    }
    told(&others);
    sym::log_bytes(&OUT.get().data);
    sym::reach(1);
}
/// Everything handlers told the client was written once and in order.
fn told(others: &[Value]) {
    let mut seen = vec![];
    for v in others.iter().filter(|v| v["method"] == "t/told") {
        seen.push(v["params"].clone());
    }
    let want: Vec<Value> = W.get().said.iter().enumerate().map(|(n, k)| json!([k, n])).collect();
    if seen.len() > 1 {
        sym::reach(11);
    }
    sym::check(seen.len() == want.len(), "C17: a message to the client was lost or written twice");
    // Per handler, the order is the one in which they were sent.
    for k in 1..NK {
        let f = |v: &&Value| v[0] == k;
        sym::check(
            seen.iter().filter(f).eq(want.iter().filter(f)),
            "C17: messages to the client were reordered or changed",
        );
    }
}
#[no_mangle]
pub extern "C" fn h_c20_a() {
    let n = sym::choose(3);
    eof(n)
}
#[no_mangle]
pub extern "C" fn h_c20_a_t() {
    let n = sym::choose(4);
    eof(n)
}

/// C17: handlers wait for answers of the client while other traffic goes on.
fn duplex(n: usize, level: usize) {
    let mut s = Sess::new(Some(level));
    // One handler that asks.
    let note = sym::flip();
    let k = s.push(if note { "t/asknote" } else { "t/ask" }, !note);
    W.get().slots[k].talk = sym::choose(3) as u32;
    let mut answered = false;
    let v = value() as u8;
    let mut asked = vec![];
    for i in 0..=n {
        s.run();
        asked = s.out().1.iter().filter(|v| v["method"] == "t/asked").cloned().collect();
        sym::check(asked.len() == 1, "C17: the question of a handler was not written out exactly once");
        if answered {
            sym::check(W.get().slots[k].finished == 1, "C17: the answer of the client did not reach the waiting handler");
        }
        if i == n {
            break;
        }
        match sym::choose(6) {
            0 => {
                s.push("t/req", true);
            }
            1 => {
                s.push("t/note", false);
            }
            2 => s.raw("{\"jsonrpc\":\"2.0\",\"result\":1,\"id\":77}"),
            3 => s.raw("{\"jsonrpc\":\"2.0\",\"result\":1,\"id\":null}"),
            4 => {
                let j = s.push("t/talk", true);
                W.get().slots[j].talk = 2;
            }
            _ => {
                sym::assume(!answered);
                answered = true;
                IN.get().push(&answer(&asked[0]["id"], v));
            }
        }
    }
    if !answered {
        IN.get().push(&answer(&asked[0]["id"], v));
        s.run();
    }
    sym::check(W.get().slots[k].finished == 1, "C17: the answer of the client did not reach the waiting handler");
    for j in 1..NK {
        s.release(j);
    }
    s.run();
    let (resps, others) = s.out();
    for &(id, j) in &s.reqs {
        if j == k {
            let r: Vec<_> = resps.iter().filter(|r| r["id"] == id).collect();
            sym::check(r.len() == 1 && r[0]["result"] == v, "C17: a handler got another answer than the client gave");
        } else {
            s.answered(&resps, id, j, 1, "C17: a request was not answered exactly once");
        }
    }
    if note {
        sym::check(W.get().slots[k].answer == Some(json!(v)), "C17: a handler got another answer than the client gave");
    }
    sym::check(W.get().order == s.sent, "C17: a handler did not run");
    told(&others);
    s.end();
    told(&s.out().1);
    sym::log_bytes(&OUT.get().data);
    sym::reach(1);
}
/// The client's answer: the digit `v`.
fn answer(id: &Value, v: u8) -> Vec<u8> {
    let mut b = b"{\"jsonrpc\":\"2.0\",\"id\":".to_vec();
    num(&mut b, id.as_i64().unwrap_or(0));
    b.extend_from_slice(b",\"result\":");
    b.push(b'0' + v);
    b.push(b'}');
    frame(&b)
}
#[no_mangle]
pub extern "C" fn h_c17_a() {
    let level = 1 + sym::choose(2);
    duplex(3, level)
}
#[no_mangle]
pub extern "C" fn h_c17_a_t() {
    let level = 1 + sym::choose(2);
    duplex(4, level)
}

/// Several handlers ask; the client answers in any order while the queue behind them is long.
fn many(n: usize) {
    let level = 1 + sym::choose(n);
    let mut s = Sess::new(Some(level));
    for _ in 0..n {
        s.push("t/ask", true);
    }
    for _ in 0..20 {
        let j = s.push("t/note", false);
        s.release(j);
        if s.next == NK - 1 {
            break;
        }
    }
    let mut done = 0;
    while done < n {
        s.run();
        let asked: Vec<Value> = s
            .out()
            .1
            .into_iter()
            .filter(|v| v["method"] == "t/asked" && W.get().slots[v["params"].as_i64().unwrap() as usize].finished == 0)
            .collect();
        sym::check(asked.len() == level.min(n - done), "C17: the question of a handler was not written out");
        let q = &asked[sym::choose(asked.len())];
        let k = q["params"].as_i64().unwrap() as usize;
        W.get().slots[k].val = 0;
        let v = value() as u8;
        IN.get().push(&answer(&q["id"], v));
        s.run();
        sym::check(W.get().slots[k].finished == 1, "C17: the answer of the client did not reach the waiting handler");
        let (resps, _) = s.out();
        let r: Vec<_> = resps.iter().filter(|r| r["id"] == k as i64 * 3).collect();
        sym::check(r.len() == 1 && r[0]["result"] == v, "C17: a handler got another answer than the client gave");
        done += 1;
    }
    s.run();
    sym::check(W.get().order == s.sent, "C17: a handler did not run");
    s.end();
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c17_b() {
    many(3)
}
#[no_mangle]
pub extern "C" fn h_c17_b_t() {
    many(4)
}

/// Traffic while so much output is waiting that the writer takes no more; `end`: the input ends meanwhile.
fn backlog(n: usize, end: bool) {
    let level = 1 + sym::choose(3);
    let mut s = Sess::new(Some(level));
    OUT.get().room = Some(0);
    let k = s.plain("t/req", true);
    W.get().slots[k].big = 9000;
    s.release(k);
    s.run();
    let mut bad = 0;
    for _ in 0..n {
        match sym::choose(4) {
            0 => {
                s.push("t/req", true);
                s.release(s.next - 1);
            }
            1 => {
                let k = s.push("t/talk", true);
                W.get().slots[k].talk = 2;
                s.release(k);
            }
            2 => {
                s.push("t/req", true);
            }
            _ => {
                bad += 1;
                s.raw("{");
            }
        }
        if sym::flip() {
            s.run();
        }
    }
    if end {
        IN.get().close();
    }
    s.run();
    for k in s.sent.clone() {
        s.release(k);
    }
    s.run();
    sym::check(!s.t.done(), "C20: serve ended although output is left");
    OUT.get().allow(Some(sym::pick(&[1usize, 9000, 9300])));
    s.run();
    OUT.get().allow(None);
    s.run();
    if !end {
        s.end();
    }
    sym::check(s.t.done(), "C20: serve does not end after its input and all handlers have");
    sym::check(OUT.get().flushed == OUT.get().data.len(), "C20: output was not flushed before serve returned");
    let (resps, others) = s.out();
    let (null, resps): (Vec<Value>, Vec<Value>) = resps.into_iter().partition(|r| r["id"].is_null());
    sym::check(null.len() == bad, "C02: not every malformed frame was answered exactly once");
    for &(id, k) in &s.reqs {
        s.answered(&resps, id, k, 1, "C04: a request was not answered exactly once");
    }
    sym::check(resps.len() == s.reqs.len(), "C04: something else was answered");
    sym::check(W.get().order == s.sent, "C16: handlers did not start in the order of arrival");
    told(&others);
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c04_e() {
    backlog(3, false)
}
#[no_mangle]
pub extern "C" fn h_c20_b() {
    backlog(3, true)
}

/// C21: reading or writing fails at any point.
fn faults(n: usize) {
    let mut s = Sess::new(Some(1 + sym::choose(2)));
    let start = OUT.get().data.len();
    let what = sym::pick(&[None, Some(Fault::Write), Some(Fault::Zero), Some(Fault::Flush), Some(Fault::Shutdown)]);
    if let Some(f) = what {
        let left = if matches!(f, Fault::Write | Fault::Zero) { sym::pick(&[0usize, 1, 21, 70, 130]) } else { 0 };
        OUT.get().fault = Some((f, left));
        if sym::flip() {
            OUT.get().chunk = 20;
        }
    }
    for _ in 0..n {
        match sym::choose(6) {
            0 => {
                s.push("t/req", true);
            }
            1 => {
                s.push("t/req", true);
                s.release(s.next - 1);
            }
            2 => {
                s.push("t/note", false);
            }
            3 => {
                let k = s.push("t/talk", true);
                W.get().slots[k].talk = 2;
            }
            4 => s.raw("{"),
            _ => s.raw("{\"jsonrpc\":\"2.0\",\"result\":1,\"id\":77}"),
        }
        if sym::flip() {
            s.run();
        }
    }
    if sym::flip() {
        for k in s.sent.clone() {
            s.release(k);
        }
        s.run();
    }
    match what {
        None => {
            match sym::choose(3) {
                0 => {}
                1 => IN.get().push(b"Content-Length: 30\r\n"),
                _ => IN.get().push(b"Content-Length: 30\r\n\r\n{\"jsonrpc\":\"2.0\",\"met"),
            }
            IN.get().fail()
        }
        _ => IN.get().close(),
    }
    s.run();
    for k in s.sent.clone() {
        s.release(k);
    }
    s.run();
    sym::check(s.t.done(), "C21: serve does not end after an I/O error and the end of its input");
    sym::check(W.get().running == 0, "C21: a handler is still in progress");
    sym::check(IN.get().reads < 100, "C21: reading goes on after an error");
    let o = OUT.get();
    sym::check(o.failed <= 1, "C21: writing goes on after an error");
    if o.failed > 0 {
        sym::reach(3);
    }
    let all = bodies(&o.data, what.is_none() || what == Some(Fault::Shutdown), "C21: the output is not a sequence of whole frames");
    let mut resps = vec![];
    let mut others = vec![];
    for b in &all {
        match serde_json::from_slice::<Value>(b) {
            Ok(v) if v.get("method").is_some() => others.push(v),
            Ok(v) => resps.push(v),
            Err(_) => sym::fail("C21: a frame does not hold JSON"),
        }
    }
    for &(id, k) in &s.reqs {
        let r: Vec<&Value> = resps.iter().filter(|r| r["id"] == id).collect();
        sym::check(r.len() <= 1, "C21: a request was answered twice");
        if what.is_none() || what == Some(Fault::Shutdown) {
            s.answered(&resps, id, k, 1, "C21: a request was not answered before serve returned");
        } else if r.len() == 1 && k != 0 {
            sym::check(r[0]["result"] == outcome(k).unwrap(), "C21: wrong answer to a request");
        }
    }
    match what {
        None => {
            sym::reach(2);
            for k in &s.sent {
                sym::check(W.get().slots[*k].finished == 1, "C21: a handler did not finish after a read error");
            }
            told(&others);
        }
        Some(Fault::Shutdown) => told(&others),
        _ => sym::check(o.data.len() >= start, "C21: output was lost"),
    }
    sym::log_bytes(&o.data);
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c21_a() {
    let n = sym::choose(3);
    faults(n)
}
#[no_mangle]
pub extern "C" fn h_c21_a_t() {
    faults(3)
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c16_a", h_c16_a),
    ("h_c16_a_t", h_c16_a_t),
    ("h_c16_b", h_c16_b),
    ("h_c16_c", h_c16_c),
    ("h_c04_d", h_c04_d),
    ("h_c04_d_t", h_c04_d_t),
    ("h_c09_c", h_c09_c),
    ("h_c09_c_t", h_c09_c_t),
    ("h_c20_a", h_c20_a),
    ("h_c20_a_t", h_c20_a_t),
    ("h_c17_a", h_c17_a),
    ("h_c17_a_t", h_c17_a_t),
    ("h_c17_b", h_c17_b),
    ("h_c17_b_t", h_c17_b_t),
    ("h_c04_e", h_c04_e),
    ("h_c20_b", h_c20_b),
    ("h_c21_a", h_c21_a),
    ("h_c21_a_t", h_c21_a_t),
];
