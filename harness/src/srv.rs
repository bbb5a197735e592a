//! The language server the harnesses run: its handlers record that they ran and wait on gates the
//! harness opens.

use crate::rt::*;
use crate::sym;
use serde_json::{json, Value};
use std::sync::Arc;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, LanguageServer, LspService};

pub const NK: usize = 16;
/// The handler slot `shutdown` uses (it takes no parameters).
pub const K_SHUTDOWN: usize = 15;

#[derive(Clone)]
pub struct Slot {
    pub started: u32,
    pub finished: u32,
    pub dropped: u32,
    pub fail: bool,
    /// What the handler returns.
    pub val: i64,
    /// How often `t/talk` and `t/ask` tell the client something at a time.
    pub talk: u32,
    pub answer: Option<Value>,
    /// The size of a string added to the result.
    pub big: usize,
    /// The result cannot be serialized.
    pub bad: bool,
}
const NEW: Slot = Slot { started: 0, finished: 0, dropped: 0, fail: false, val: 0, talk: 0, answer: None, big: 0, bad: false };
pub struct World {
    pub slots: [Slot; NK],
    pub order: Vec<usize>,
    pub running: usize,
    pub max_running: usize,
    pub client: Option<Client>,
    /// Which handler told the client something, in order.
    pub said: Vec<usize>,
}
pub static W: Cell1<World> = Cell1::new(World {
    slots: [NEW; NK],
    said: vec![],
    order: vec![],
    running: 0,
    max_running: 0,
    client: None,
});
const G0: Cell1<Gate> = Cell1::new(Gate::new());
pub static GATES: [Cell1<Gate>; NK] = [const { G0 }; NK];

struct Running(usize);
impl Running {
    fn new(k: usize) -> Self {
        let w = W.get();
        w.slots[k].started += 1;
        w.order.push(k);
        w.running += 1;
        w.max_running = w.max_running.max(w.running);
        Running(k)
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        let w = W.get();
        w.running -= 1;
        w.slots[self.0].dropped += 1;
    }
}

/// The common handler body.
pub async fn body(k: usize) {
    let _r = Running::new(k);
    Wait(&GATES[k]).await;
    W.get().slots[k].finished += 1;
}

/// The outcome slot `k` is set up for.
pub fn outcome(k: usize) -> Result<Value> {
    if W.get().slots[k].fail {
        Err(Error {
            code: ErrorCode::ServerError(W.get().slots[k].val),
            message: "handler failed".into(),
            data: Some(Value::from(k as u64)),
        })
    } else {
        let mut v = json!([k, W.get().slots[k].val]);
        if W.get().slots[k].big > 0 {
            v.as_array_mut().unwrap().push("x".repeat(W.get().slots[k].big).into());
        }
        Ok(v)
    }
}

pub struct Mini {
    pub client: Client,
}

#[tower_lsp::async_trait]
impl LanguageServer for Mini {
    async fn initialize(&self, p: InitializeParams) -> Result<InitializeResult> {
        let k = p.process_id.unwrap_or(0) as usize;
        body(k).await;
        outcome(k).map(|_| init_result(k))
    }
    async fn shutdown(&self) -> Result<()> {
        body(K_SHUTDOWN).await;
        outcome(K_SHUTDOWN).map(|_| ())
    }
}

pub fn init_result(k: usize) -> InitializeResult {
    InitializeResult {
        server_info: Some(ServerInfo { name: ["a", "b", "c", "d"][k % 4].to_string(), version: None }),
        ..Default::default()
    }
}

impl Mini {
    /// A custom request.
    pub async fn req(&self, k: u32) -> Result<Res> {
        body(k as usize).await;
        outcome(k as usize).map(|v| Res(v, W.get().slots[k as usize].bad))
    }
    /// A custom notification.
    pub async fn note(&self, k: u32) {
        body(k as usize).await
    }
    /// A custom request whose handler tells the client things before and after it waits.
    pub async fn talk(&self, k: u32) -> Result<Value> {
        let r = Running::new(k as usize);
        self.say(k).await;
        Wait(&GATES[k as usize]).await;
        self.say(k).await;
        W.get().slots[k as usize].finished += 1;
        drop(r);
        outcome(k as usize)
    }
    async fn say(&self, k: u32) {
        for _ in 0..W.get().slots[k as usize].talk {
            let n = W.get().said.len();
            W.get().said.push(k as usize);
            self.client.send_notification::<Told>(vec![k, n as u32]).await;
        }
    }
    /// A custom request whose handler asks the client a question, between two notifications.
    pub async fn ask(&self, k: u32) -> Result<Value> {
        let r = Running::new(k as usize);
        self.say(k).await;
        let v = self.client.send_request::<Ask>(k).await;
        W.get().slots[k as usize].finished += 1;
        self.say(k).await;
        drop(r);
        v
    }
    /// The same as a notification.
    pub async fn ask_note(&self, k: u32) {
        let r = Running::new(k as usize);
        let v = self.client.send_request::<Ask>(k).await;
        W.get().slots[k as usize].finished += 1;
        W.get().slots[k as usize].answer = v.ok();
        self.say(k).await;
        drop(r);
    }
}

/// A result that may fail to serialize.
pub struct Res(Value, bool);
impl serde::Serialize for Res {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.1 {
            return Err(serde::ser::Error::custom("no"));
        }
        self.0.serialize(s)
    }
}

/// What the custom methods of other shapes got.
pub static SHAPES: Cell1<Vec<(&'static str, Value)>> = Cell1::new(vec![]);
fn shape(name: &'static str, v: Value) -> Value {
    SHAPES.get().push((name, v.clone()));
    json!([v])
}
impl Mini {
    async fn one(&self, n: u32) -> Result<Value> {
        Ok(shape("t/one", n.into()))
    }
    async fn hint(&self, n: u32) {
        shape("t/hint", n.into());
    }
    async fn many(&self, v: Vec<u32>) -> Result<Value> {
        Ok(shape("t/many", v.into()))
    }
    async fn maybe(&self, v: Option<u32>) -> Result<Value> {
        Ok(shape("t/maybe", v.map_or(Value::Null, Value::from)))
    }
    async fn any(&self, v: Value) -> Result<Value> {
        Ok(shape("t/any", v))
    }
    async fn plain(&self) -> Result<Value> {
        Ok(shape("t/plain", Value::Null))
    }
    async fn ping(&self) {
        shape("t/ping", Value::Null);
    }
}

pub enum Told {}
impl notification::Notification for Told {
    type Params = Vec<u32>;
    const METHOD: &'static str = "t/told";
}
pub enum Ask {}
impl request::Request for Ask {
    type Params = u32;
    type Result = Value;
    const METHOD: &'static str = "t/asked";
}

pub fn service() -> (LspService<Mini>, ClientSocket) {
    LspService::build(|client| {
        W.get().client = Some(client.clone());
        Mini { client }
    })
    .custom_method("t/req", Mini::req)
    .custom_method("t/note", Mini::note)
    .custom_method("t/talk", Mini::talk)
    .custom_method("t/ask", Mini::ask)
    .custom_method("t/asknote", Mini::ask_note)
    .custom_method("t/one", Mini::one)
    .custom_method("t/hint", Mini::hint)
    .custom_method("t/many", Mini::many)
    .custom_method("t/maybe", Mini::maybe)
    .custom_method("t/any", Mini::any)
    .custom_method("t/plain", Mini::plain)
    .custom_method("t/ping", Mini::ping)
    .finish()
}

pub fn init_params(k: usize) -> Value {
    json!({"processId": k, "capabilities": {}})
}

/// A string of `n` arbitrary ASCII characters.
pub fn ascii(n: usize) -> String {
    let mut s = String::with_capacity(n);
    for _ in 0..n {
        let b = sym::u8();
        sym::assume(b < 0x80);
        unsafe { s.as_mut_vec().push(b) };
    }
    s
}

/// Any numeric id, or (if `strings`) any one-character string id.
pub fn any_id(strings: bool) -> Id {
    match if strings { sym::choose(3) } else { 0 } {
        0 => Id::Number(sym::i64()),
        1 => Id::String(ascii(1)),
        _ => Id::Null,
    }
}

pub fn shared<T>(x: T) -> Arc<Cell1<T>> {
    Arc::new(Cell1::new(x))
}
