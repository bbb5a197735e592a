//! C05-C09 (and the service half of C04): every bounded history of requests, notifications,
//! cancellations and handler completions, against a reference model of the lifecycle.

use crate::rt::*;
use crate::srv::*;
use crate::sym;
use serde_json::{json, Value};
use futures::{Sink, Stream};
use std::pin::Pin;
use std::task::{Context, Poll};
use tower::Service;
use tower_lsp::jsonrpc::{Error, Id, Request, Response};
use tower_lsp::{ClientSocket, ExitedError, LspService};

#[derive(Clone, Copy, PartialEq)]
enum Ph {
    Uninit,
    Initing,
    Init,
    Shut,
    Exited,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ev {
    Init,
    Req,
    Note,
    Shutdown,
    Exit,
    Cancel,
    Release,
    /// Only without `eager`: poll one task.
    Poll,
    /// Drops the future of a call.
    Drop,
}

enum Exp {
    /// The service itself reports that it has exited.
    Err,
    Silent,
    Refuse(i64),
    Run,
    Cancel(Id),
}

struct Call {
    task: Task<Result<Option<Response>, ExitedError>>,
    id: Option<Id>,
    ev: Ev,
    exp: Exp,
    k: usize,
    polled: bool,
    cancelled: bool,
    done: bool,
}

pub struct Cfg {
    pub prop: u32,
    pub steps: usize,
    pub events: &'static [Ev],
    pub eager: bool,
    pub strings: bool,
    /// Handlers may return errors.
    pub fail: bool,
    /// Results may be impossible to serialize.
    pub bad: bool,
    /// The same as `fail` for `initialize` only.
    pub fail_init: bool,
    /// Start with the server initialized.
    pub inited: bool,
}

const C04: u32 = 1 << 4;
const C05: u32 = 1 << 5;
const C06: u32 = 1 << 6;
const C07: u32 = 1 << 7;
const C08: u32 = 1 << 8;
const C09: u32 = 1 << 9;
const ALL: u32 = !0;

struct Drv {
    cfg: Cfg,
    svc: LspService<Mini>,
    sock: Option<ClientSocket>,
    ph: Ph,
    calls: Vec<Call>,
    next_k: usize,
    shutdowns: u32,
    inits: u32,
}

impl Drv {
    /// An assertion that belongs to the given properties; in a check of another property, histories
    /// that break it are left out.
    fn chk(&self, props: u32, c: bool, msg: &str) {
        if props & (1 << self.cfg.prop) != 0 || self.cfg.prop == 22 {
            sym::check(c, msg)
        } else {
            sym::assume(c)
        }
    }

    fn live(&self, c: &Call) -> bool {
        !c.done && matches!(c.exp, Exp::Run) && c.id.is_some()
    }

    fn call(&mut self, ev: Ev) {
        let k = match ev {
            Ev::Init | Ev::Req | Ev::Note => {
                self.next_k += 1;
                let k = self.next_k - 1;
                W.get().slots[k].fail = (self.cfg.fail || self.cfg.fail_init && ev == Ev::Init) && sym::flip();
                W.get().slots[k].bad = self.cfg.bad && ev == Ev::Req && !W.get().slots[k].fail && sym::flip();
                W.get().slots[k].val = sym::u32() as i64;
                k
            }
            Ev::Shutdown => K_SHUTDOWN,
            _ => 0,
        };
        let id = match ev {
            Ev::Init | Ev::Req | Ev::Shutdown => Some(any_id(self.cfg.strings)),
            _ => None,
        };
        let mut cancel = None;
        let req = match ev {
            Ev::Init => Request::build("initialize").params(init_params(k)).id(id.clone().unwrap()),
            Ev::Req => Request::build("t/req").params(json!(k)).id(id.clone().unwrap()),
            Ev::Note => Request::build("t/note").params(json!(k)),
            Ev::Shutdown => Request::build("shutdown").id(id.clone().unwrap()),
            Ev::Exit => Request::build("exit"),
            Ev::Cancel => {
                let (p, i) = if self.cfg.strings && sym::flip() {
                    let s = ascii(1);
                    (json!({ "id": s.clone() }), Id::String(s))
                } else {
                    let n = sym::u32() as i32;
                    (json!({ "id": n }), Id::Number(n as i64))
                };
                cancel = Some(i);
                Request::build("$/cancelRequest").params(p)
            }
            _ => unreachable!(),
        }
        .finish();

        // The reference model decides what has to happen.
        let dup = match &id {
            Some(id) => self.calls.iter().any(|c| self.live(c) && c.id.as_ref() == Some(id)),
            None => false,
        };
        let refusal = match self.ph {
            Ph::Uninit | Ph::Initing => -32002,
            _ => -32600,
        };
        let was = self.ph;
        let exp = match ev {
            _ if self.ph == Ph::Exited => Exp::Err,
            Ev::Init if self.ph == Ph::Uninit => {
                self.ph = Ph::Initing;
                Exp::Run
            }
            Ev::Init => Exp::Refuse(-32600),
            Ev::Req if self.ph != Ph::Init => Exp::Refuse(refusal),
            Ev::Req if dup => {
                sym::reach(8);
                Exp::Refuse(-32600)
            }
            Ev::Req => Exp::Run,
            Ev::Note if self.ph == Ph::Init => Exp::Run,
            Ev::Note => Exp::Silent,
            Ev::Shutdown if self.ph == Ph::Init && dup => {
                sym::reach(8);
                Exp::Refuse(-32600)
            }
            Ev::Shutdown if self.ph == Ph::Init => {
                self.ph = Ph::Shut;
                Exp::Run
            }
            Ev::Shutdown => Exp::Refuse(refusal),
            Ev::Exit => {
                self.ph = Ph::Exited;
                Exp::Silent
            }
            Ev::Cancel => Exp::Cancel(cancel.unwrap()),
            _ => unreachable!(),
        };

        // The real service.
        let wk = futures::task::noop_waker();
        let ready = self.svc.poll_ready(&mut Context::from_waker(&wk));
        if was == Ph::Exited {
            self.chk(C09, matches!(ready, Poll::Ready(Err(_))), "C09: ready after exit");
        } else {
            self.chk(C05 | C09 | C04, matches!(ready, Poll::Ready(Ok(()))), "C05: service not ready");
        }
        let fut = self.svc.call(req);
        if ev == Ev::Exit && was != Ph::Exited {
            for i in 0..self.calls.len() {
                if self.live(&self.calls[i]) {
                    self.calls[i].cancelled = true;
                    sym::reach(9);
                }
            }
        }
        sym::log(ev as u64);
        self.calls.push(Call {
            task: Task::new(fut),
            id,
            ev,
            exp,
            k,
            polled: false,
            cancelled: false,
            done: false,
        });
    }

    /// Polls call `i` if it was woken and compares it with the model.
    fn poll(&mut self, i: usize) -> bool {
        if self.calls[i].done {
            return false;
        }
        let any = self.calls[i].task.run();
        if !any {
            // Not woken: then nothing may have happened that lets it proceed.
            if self.calls[i].polled {
                let c = &self.calls[i];
                let due = c.cancelled || (matches!(c.exp, Exp::Run) && GATES[c.k].get().open);
                self.chk(ALL, !due, "lost wake-up: a call that can proceed is not polled again");
            }
            return false;
        }
        let first = !self.calls[i].polled;
        self.calls[i].polled = true;
        let ev = self.calls[i].ev;
        let k = self.calls[i].k;
        let slot = &W.get().slots[k];
        let out = self.calls[i].task.out.take();
        sym::log(match &out {
            None => 100,
            Some(Err(_)) => 101,
            Some(Ok(None)) => 102,
            Some(Ok(Some(r))) => match r.error() {
                Some(e) => e.code.code() as u64,
                None => 103,
            },
        });
        let c = &self.calls[i];
        match &c.exp {
            Exp::Err => {
                self.chk(C09, matches!(out, Some(Err(_))), "C09: call accepted after exit");
            }
            Exp::Silent => {
                let p = if ev == Ev::Exit { C09 } else { C05 | C04 };
                self.chk(p, matches!(out, Some(Ok(None))), "notification outside its phase not dropped silently");
                if ev == Ev::Note {
                    self.chk(C05, slot.started == 0, "C05: notification handler ran outside the initialized phase");
                }
            }
            Exp::Refuse(code) => {
                let own = if ev == Ev::Init || ev == Ev::Shutdown {
                    C06 | C05 | C08
                } else if self.ph == Ph::Init {
                    C08
                } else {
                    C05 | C08
                };
                match &out {
                    Some(Ok(Some(r))) => {
                        self.chk(own | C04, Some(r.id()) == c.id.as_ref(), "refusal carries another id");
                        let got = r.error().map(|e| e.code.code());
                        self.chk(own, got == Some(*code), "request not refused with the right error");
                        sym::reach(5);
                    }
                    _ => self.chk(own | C04, false, "refused request did not get its error response"),
                }
                if ev != Ev::Shutdown {
                    self.chk(own, slot.started == 0, "handler of a refused request ran");
                }
            }
            Exp::Cancel(id) => {
                self.chk(C07 | C04, matches!(out, Some(Ok(None))), "C07: cancellation was answered");
                let id = id.clone();
                for j in 0..self.calls.len() {
                    let c = &self.calls[j];
                    if self.live(c) && c.id.as_ref() == Some(&id) {
                        self.calls[j].cancelled = true;
                        sym::reach(7);
                    }
                }
            }
            Exp::Run if ev == Ev::Note => {
                self.chk(C05 | C04, slot.started == 1, "C05: notification handler did not run");
                if GATES[k].get().open {
                    self.chk(C04, matches!(out, Some(Ok(None))), "C04: notification was answered");
                    self.chk(C05 | C09, slot.finished == 1, "notification handler did not finish");
                } else {
                    self.chk(C04, out.is_none(), "C04: notification ended before its handler");
                }
            }
            Exp::Run => {
                let own = match ev {
                    Ev::Init | Ev::Shutdown => C06,
                    _ => C05 | C04 | C07 | C08,
                };
                if c.cancelled {
                    let p = if self.ph == Ph::Exited { C09 | C07 } else { C07 };
                    match &out {
                        Some(Ok(Some(r))) => {
                            let want = Response::from_error(c.id.clone().unwrap(), Error::request_cancelled());
                            self.chk(p, *r == want, "C07: cancelled request got another answer");
                            self.chk(p, r.error().map(|e| e.code.code()) == Some(-32800), "C07: wrong error code");
                        }
                        _ => self.chk(p, false, "C07: cancelled request not answered"),
                    }
                    self.chk(p, slot.finished == 0, "C07: handler of a cancelled request finished");
                    self.chk(p, slot.dropped == slot.started, "C07: handler of a cancelled request still exists");
                    self.chk(p, !first || slot.started == 0, "C07: handler of a request cancelled before it ran was started");
                    if ev == Ev::Init && self.ph == Ph::Initing {
                        self.ph = Ph::Uninit;
                    }
                } else {
                    self.chk(own | C09, slot.started == 1, "handler of an accepted request did not run exactly once");
                    if GATES[k].get().open {
                        let id = c.id.clone().unwrap();
                        let want = match (ev, outcome(k)) {
                            (_, Err(e)) => Response::from_error(id, e),
                            (Ev::Init, _) => Response::from_ok(id, serde_json::to_value(init_result(k)).unwrap()),
                            (Ev::Shutdown, _) => Response::from_ok(id, Value::Null),
                            (_, Ok(v)) => Response::from_ok(id, v),
                        };
                        match &out {
                            Some(Ok(Some(r))) if slot.bad => {
                                sym::reach(12);
                                let code = r.error().map(|e| e.code.code());
                                self.chk(own, Some(r.id()) == c.id.as_ref(), "response carries another id");
                                self.chk(own, code == Some(-32603), "result that cannot be serialized not answered with -32603");
                            }
                            Some(Ok(Some(r))) => self.chk(own, *r == want, "request not answered with its handler's result"),
                            _ => self.chk(own, false, "finished request not answered"),
                        }
                        if ev == Ev::Init {
                            self.inits += 1;
                            if self.ph == Ph::Initing {
                                self.ph = if outcome(k).is_ok() { Ph::Init } else { Ph::Uninit };
                            } else {
                                sym::reach(6);
                            }
                        }
                        if ev == Ev::Shutdown {
                            self.shutdowns += 1;
                        }
                        sym::reach(4);
                    } else {
                        self.chk(own, out.is_none(), "request answered before its handler finished");
                    }
                }
            }
        }
        self.calls[i].done = self.calls[i].task.done();
        if self.calls[i].done {
            self.calls[i].task.cancel();
        }
        true
    }

    fn settle(&mut self) {
        loop {
            let mut any = false;
            for i in 0..self.calls.len() {
                any |= self.poll(i);
            }
            if !any {
                return;
            }
        }
    }

    fn step(&mut self, ev: Ev) {
        match ev {
            Ev::Release => {
                // Any handler that is waiting, or any request whose handler has not started.
                let n = self.calls.len();
                sym::assume(n > 0);
                let i = sym::choose(n);
                let c = &self.calls[i];
                sym::assume(matches!(c.exp, Exp::Run) && !c.done && !GATES[c.k].get().open);
                GATES[c.k].get().release();
            }
            Ev::Poll => {
                let n = self.calls.len();
                sym::assume(n > 0);
                let i = sym::choose(n);
                sym::assume(!self.calls[i].done);
                sym::assume(self.poll(i));
            }
            Ev::Drop => {
                let n = self.calls.len();
                sym::assume(n > 0);
                let i = sym::choose(n);
                sym::assume(!self.calls[i].done);
                let run = matches!(self.calls[i].exp, Exp::Run);
                if run && self.calls[i].id.is_some() {
                    sym::reach(10);
                }
                if run && self.calls[i].ev == Ev::Init && self.ph == Ph::Initing {
                    sym::reach(11);
                    self.ph = Ph::Uninit;
                }
                self.calls[i].task.cancel();
                self.calls[i].done = true;
                let s = &W.get().slots[self.calls[i].k];
                sym::check(!run || s.dropped == s.started, "C22: the handler of a dropped call still exists");
            }
            ev => self.call(ev),
        }
        if self.cfg.eager {
            self.settle();
        }
    }
}

fn drive(cfg: Cfg) -> Drv {
    let (svc, sock) = service();
    let n = cfg.steps;
    let mut d = Drv { cfg, svc, sock: Some(sock), ph: Ph::Uninit, calls: vec![], next_k: 0, shutdowns: 0, inits: 0 };
    if d.cfg.inited {
        let e = std::mem::replace(&mut d.cfg.eager, true);
        let f = std::mem::replace(&mut d.cfg.fail, false);
        GATES[0].get().release();
        d.call(Ev::Init);
        d.settle();
        d.chk(ALL, d.ph == Ph::Init, "initialize succeeds");
        d.cfg.eager = e;
        d.cfg.fail = f;
    }
    for _ in 0..n {
        let ev = sym::pick(d.cfg.events);
        d.step(ev);
    }
    // Let every handler finish; everything must then be answered.
    for k in 0..NK {
        GATES[k].get().release();
    }
    d.settle();
    for c in &d.calls {
        d.chk(ALL, c.done, "a call never completes");
    }
    let s = &W.get().slots[K_SHUTDOWN];
    d.chk(C06, s.started <= 1, "C06: the shutdown handler ran twice");
    d.chk(ALL, W.get().running == 0, "a handler is still running");
    // After exit nothing is accepted any more, whatever completed since.
    let ph = d.ph;
    d.call(if d.cfg.prop == 6 { Ev::Init } else { Ev::Req });
    GATES[d.next_k - 1].get().release();
    d.settle();
    d.chk(ALL, d.calls.last().unwrap().done, "the last call never completes");
    if ph == Ph::Exited {
        sym::reach(3);
        let wk = futures::task::noop_waker();
        let mut cx = Context::from_waker(&wk);
        let mut sock = d.sock.take().unwrap();
        let next = Pin::new(&mut sock).poll_next(&mut cx);
        d.chk(C09, matches!(next, Poll::Ready(None)), "C09: the stream of client requests does not end after exit");
        let sink = Sink::poll_ready(Pin::new(&mut sock), &mut cx);
        d.chk(C09, matches!(sink, Poll::Ready(Err(_))), "C09: the response sink accepts responses after exit");
        // The same for the halves of the socket.
        let (mut rx, mut tx) = sock.split();
        let next = Pin::new(&mut rx).poll_next(&mut cx);
        d.chk(C09, matches!(next, Poll::Ready(None)), "C09: the stream of client requests does not end after exit");
        let sink = Sink::poll_ready(Pin::new(&mut tx), &mut cx);
        d.chk(C09, matches!(sink, Poll::Ready(Err(_))), "C09: the response sink accepts responses after exit");
    } else {
        let wk = futures::task::noop_waker();
        let sink = Sink::poll_ready(Pin::new(d.sock.as_mut().unwrap()), &mut Context::from_waker(&wk));
        d.chk(C09, matches!(sink, Poll::Ready(Ok(()))), "C09: the response sink is closed before exit");
    }
    if ph == Ph::Shut {
        sym::reach(2);
    }
    d
}

use Ev::*;

const BASE: Cfg = Cfg { prop: 0, steps: 0, events: &[], eager: true, strings: false, fail: false, bad: false, fail_init: false, inited: false };

/// One harness with the bound of the quick tier and one with that of the thorough tier.
macro_rules! life {
    ($($q:ident $sq:expr, $t:ident $st:expr => $prop:expr, [$($ev:expr),*], { $($f:ident : $v:expr),* };)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $q() {
                drive(Cfg { prop: $prop, steps: $sq, events: &[$($ev),*], $($f: $v,)* ..BASE });
            }
            #[no_mangle]
            pub extern "C" fn $t() {
                drive(Cfg { prop: $prop, steps: $st, events: &[$($ev),*], $($f: $v,)* ..BASE });
            }
        )*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($q), $q), (stringify!($t), $t)),*];
    };
}
life! {
    h_c05_a 4, h_c05_a_t 6 => 5, [Init, Req, Note, Shutdown, Release, Exit], { fail_init: true };
    h_c05_b 5, h_c05_b_t 6 => 5, [Init, Req, Note, Shutdown, Release, Poll], { eager: false };
    h_c05_c 5, h_c05_c_t 6 => 5, [Req, Note, Shutdown, Release, Poll], { eager: false, inited: true };
    h_c06_a 5, h_c06_a_t 6 => 6, [Init, Shutdown, Exit, Cancel, Release], { fail_init: true };
    h_c06_b 5, h_c06_b_t 6 => 6, [Init, Shutdown, Exit, Release, Poll], { eager: false, fail_init: true };
    h_c07_a 3, h_c07_a_t 4 => 7, [Req, Cancel, Release], { strings: true, inited: true };
    h_c07_b 5, h_c07_b_t 6 => 7, [Req, Cancel, Release, Poll], { eager: false, inited: true };
    h_c07_c 4, h_c07_c_t 5 => 7, [Req, Note, Shutdown, Cancel, Release], { inited: true, fail: true };
    h_c08_a 3, h_c08_a_t 4 => 8, [Req, Cancel, Release], { strings: true, inited: true };
    h_c08_c 5, h_c08_c_t 6 => 8, [Req, Shutdown, Cancel, Release], { inited: true };
    h_c08_b 5, h_c08_b_t 6 => 8, [Req, Cancel, Release, Poll], { eager: false, inited: true };
    h_c22_a 5, h_c22_a_t 6 => 22, [Init, Req, Shutdown, Release, Drop], {};
    h_c22_b 5, h_c22_b_t 6 => 22, [Req, Note, Cancel, Exit, Release, Drop], { inited: true };
    h_c22_c 5, h_c22_c_t 6 => 22, [Init, Req, Cancel, Release, Poll, Drop], { eager: false };
    h_c09_a 5, h_c09_a_t 6 => 9, [Init, Req, Note, Shutdown, Exit, Release], {};
    h_c09_b 5, h_c09_b_t 6 => 9, [Req, Note, Cancel, Exit, Release, Poll], { eager: false, inited: true };
    h_c04_a 3, h_c04_a_t 4 => 4, [Req, Note, Shutdown, Cancel, Release], { strings: true, inited: true };
    h_c04_f 4, h_c04_f_t 5 => 4, [Req, Cancel, Release], { fail: true, bad: true, inited: true };
    h_c04_b 6, h_c04_b_t 7 => 4, [Req, Note, Release, Poll], { eager: false, inited: true };
    h_c04_c 5, h_c04_c_t 6 => 4, [Init, Req, Note, Shutdown, Release], { fail_init: true };
}
