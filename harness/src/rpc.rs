//! C12: JSON-RPC values survive serialization and incoming objects are classified correctly.

use crate::srv::ascii;
use crate::sym;
use crate::wire::*;
use serde_json::{json, Map, Value};
use std::hash::{Hash, Hasher};
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::lsp_types::NumberOrString;

/// A string of up to `n` ASCII characters, or one with a character of several bytes.
fn text(n: usize) -> String {
    match sym::choose(n + 2) {
        k if k <= n => ascii(k),
        _ => {
            let mut s = sym::pick(&["é", "√", "😀"]).to_string();
            s.push_str(&ascii(1));
            s
        }
    }
}

/// Any number; `small` ones have few digits so that their text is within reach.
fn number(small: bool) -> i64 {
    if small {
        let n = sym::u8();
        // The edges of the range, and small numbers of either sign.
        match sym::choose(4) {
            0 => n as i64,
            1 => -(n as i64) - 1,
            2 => i64::MAX,
            _ => i64::MIN,
        }
    } else {
        sym::i64()
    }
}

fn id(small: bool) -> (Id, Value) {
    match sym::choose(3) {
        0 => (Id::Null, Value::Null),
        1 => {
            let n = number(small);
            (Id::Number(n), Value::from(n))
        }
        _ => {
            let s = text(1);
            (Id::String(s.clone()), Value::from(s))
        }
    }
}

fn value(small: bool) -> Value {
    match sym::choose(8) {
        0 => Value::Null,
        1 => Value::from(sym::choose(2) == 1),
        2 => Value::from(number(small)),
        3 => Value::from(text(1)),
        4 => json!([]),
        5 => json!([number(small), null]),
        6 => json!({}),
        _ => {
            let mut m = Map::new();
            m.insert(ascii(1), Value::from(number(small)));
            Value::Object(m)
        }
    }
}

fn round<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(x: &T, want: &Value, via_text: bool) {
    match serde_json::to_value(x) {
        Ok(v) => {
            sym::check(&v == want, "C12: a value serializes to something else");
            match serde_json::from_value::<T>(v) {
                Ok(y) => sym::check(y == *x, "C12: a value does not survive serialization"),
                Err(_) => sym::fail("C12: a serialized value does not deserialize"),
            }
        }
        Err(_) => sym::fail("C12: a value does not serialize"),
    }
    if via_text {
        match serde_json::to_string(x) {
            Ok(t) => {
                sym::log(t.len() as u64);
                match serde_json::from_str::<T>(&t) {
                    Ok(y) => sym::check(y == *x, "C12: a value does not survive serialization to text"),
                    Err(_) => sym::fail("C12: the text of a value does not deserialize"),
                }
                match serde_json::from_str::<Value>(&t) {
                    Ok(v) => sym::check(v == *want, "C12: the text of a value says something else"),
                    Err(_) => sym::fail("C12: the text of a value is not JSON"),
                }
            }
            Err(_) => sym::fail("C12: a value does not serialize"),
        }
    }
}

/// Requests and notifications. The text of one member at a time varies.
fn requests(small: bool) {
    let focus = if small { sym::choose(3) } else { 3 };
    let m = if focus == 0 || !small { text(2) } else { "m".into() };
    let mut want = Map::new();
    want.insert("jsonrpc".into(), "2.0".into());
    want.insert("method".into(), m.clone().into());
    let mut b = Request::build(m.clone());
    let mut p = None;
    if sym::flip() {
        let v = if focus == 1 || !small { value(small) } else { json!({"p": [null]}) };
        want.insert("params".into(), v.clone());
        b = b.params(v.clone());
        p = Some(v);
        sym::reach(2);
    }
    let mut i = None;
    if sym::flip() {
        let (x, v) = if focus == 2 || !small { id(small) } else { (Id::Number(-5), (-5).into()) };
        want.insert("id".into(), v);
        b = b.id(x.clone());
        i = Some(x);
        sym::reach(3);
    }
    let r = b.finish();
    round(&r, &Value::Object(want), small);
    sym::check(r.method() == m && r.params() == p.as_ref() && r.id() == i.as_ref(), "C12: a request was not built as asked");
    if small {
        let t = r.to_string();
        sym::check(t.parse::<Request>().ok().as_ref() == Some(&r), "C12: a request does not survive Display and FromStr");
    }
    let (m2, i2, p2) = r.into_parts();
    sym::check(m2 == m && p2 == p && i2 == i, "C12: a request was taken apart into something else");
    sym::reach(1);
}

fn error(small: bool) -> (Error, Value) {
    let focus = if small { sym::choose(3) } else { 3 };
    // `ServerError` wrapping a code that has a name is not a value the conversion produces.
    let c = if focus == 0 || !small { number(small) } else { -32601 };
    let e = ErrorCode::from(c);
    let m = if focus == 1 || !small { text(1) } else { "m".into() };
    let mut v = json!({ "code": c, "message": m.clone() });
    let data = if sym::flip() {
        let d = if focus == 2 || !small { value(small) } else { Value::Null };
        if d.is_null() {
            sym::reach(4);
        }
        v["data"] = d.clone();
        Some(d)
    } else {
        None
    };
    (Error { code: e, message: m.into(), data }, v)
}

fn responses(small: bool) {
    let focus = !small || sym::flip();
    let (i, iv) = if focus { id(small) } else { (Id::Number(7), 7.into()) };
    let (body, want) = if sym::flip() {
        let v = if focus && small { json!([null]) } else { value(small) };
        (Ok(v.clone()), json!({"jsonrpc": "2.0", "result": v, "id": iv}))
    } else {
        let (e, v) = if focus && small { (Error::internal_error(), json!({"code": -32603, "message": "Internal error"})) } else { error(small) };
        sym::reach(2);
        round(&e, &v, small);
        (Err(e), json!({"jsonrpc": "2.0", "error": v, "id": iv}))
    };
    let r = Response::from_parts(i.clone(), body.clone());
    round(&r, &want, small);
    if small {
        sym::check(serde_json::to_string(&r).unwrap_or_default().parse::<Response>().ok().as_ref() == Some(&r), "C12: a response does not survive FromStr");
    }
    sym::check(
        r.id() == &i && r.is_ok() == body.is_ok() && r.is_error() == body.is_err() && r.result() == body.as_ref().ok() && r.error() == body.as_ref().err(),
        "C12: a response was not built as asked",
    );
    let (i2, b2) = r.into_parts();
    sym::check(i2 == i && b2 == body, "C12: a response was taken apart into something else");
    sym::reach(1);
}

#[no_mangle]
pub extern "C" fn h_c12_a() {
    requests(false)
}
#[no_mangle]
pub extern "C" fn h_c12_a2() {
    requests(true)
}
#[no_mangle]
pub extern "C" fn h_c12_b() {
    responses(false)
}
#[no_mangle]
pub extern "C" fn h_c12_b2() {
    responses(true)
}

/// Every 64-bit error code has exactly one `ErrorCode`.
#[no_mangle]
pub extern "C" fn h_c12_c() {
    let (n, m) = (sym::i64(), sym::i64());
    let (a, b) = (ErrorCode::from(n), ErrorCode::from(m));
    sym::check(a.code() == n && i64::from(a) == n, "C12: an error code does not survive the conversion");
    sym::check((a == b) == (n == m), "C12: two error codes became the same or one became two");
    let named = [
        (-32700, ErrorCode::ParseError),
        (-32600, ErrorCode::InvalidRequest),
        (-32601, ErrorCode::MethodNotFound),
        (-32602, ErrorCode::InvalidParams),
        (-32603, ErrorCode::InternalError),
        (-32800, ErrorCode::RequestCancelled),
        (-32801, ErrorCode::ContentModified),
    ];
    let mut known = false;
    for (c, e) in named {
        sym::check(e.code() == c, "C12: a named error code has another number");
        sym::check((a == e) == (n == c), "C12: a named error code stands for another number");
        sym::check(Error::new(e).code == e, "C12: an error has another code than it was made with");
        known |= n == c;
    }
    sym::check(known || a == ErrorCode::ServerError(n), "C12: a code without a name is not a server error");
    sym::check(
        [Error::parse_error(), Error::invalid_request(), Error::method_not_found(), Error::invalid_params("x"), Error::internal_error(), Error::request_cancelled(), Error::content_modified()]
            .iter()
            .zip(named)
            .all(|(e, (_, c))| e.code == c && e.data.is_none()),
        "C12: a constructor makes an error with another code",
    );
    if known {
        sym::reach(2);
    }
    sym::reach(1);
}

/// Collects what is hashed.
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hashed(i: &Id) -> Vec<u8> {
    let mut h = Bytes(vec![]);
    i.hash(&mut h);
    h.0
}

/// Ids: equality, hashing and conversions.
#[no_mangle]
pub extern "C" fn h_c12_d() {
    let (a, av) = id(false);
    let (b, bv) = id(false);
    sym::check((a == b) == (av == bv), "C12: ids are equal that differ or the other way around");
    if a == b {
        sym::check(hashed(&a) == hashed(&b), "C12: equal ids hash differently");
        sym::reach(2);
    } else {
        sym::reach(3);
    }
    sym::check(a.clone() == a, "C12: a clone of an id differs");
    match (&a, &av) {
        (Id::Number(n), _) => sym::check(Id::from(*n) == a, "C12: an id was converted into another"),
        (Id::String(s), _) => {
            sym::check(Id::from(s.clone()) == a && Id::from(s.as_str()) == a, "C12: an id was converted into another");
            sym::check(Id::from(NumberOrString::String(s.clone())) == a, "C12: an id was converted into another");
        }
        (Id::Null, _) => sym::check(Id::default() == a, "C12: the default id is not null"),
    }
    let n = sym::u32() as i32;
    sym::check(Id::from(NumberOrString::Number(n)) == Id::Number(n as i64), "C12: an id was converted into another");
    round(&a, &av, false);
    sym::reach(1);
}

fn member(v: &mut Vec<Vec<u8>>, name: &str, text: &[u8]) {
    let mut b = b"\"".to_vec();
    b.extend_from_slice(name.as_bytes());
    b.extend_from_slice(b"\":");
    b.extend_from_slice(text);
    v.push(b);
}

/// Objects with every combination of members, in two orders.
fn classify(orders: usize) {
    let mut ms: Vec<Vec<u8>> = vec![];
    let ver = match sym::choose(6) {
        0 => {
            member(&mut ms, "jsonrpc", b"\"2.0\"");
            true
        }
        1 => {
            member(&mut ms, "jsonrpc", b"\"2\\u002e0\"");
            true
        }
        2 => {
            member(&mut ms, "jsonrpc", b"\"1.0\"");
            false
        }
        3 => {
            member(&mut ms, "jsonrpc", b"2.0");
            false
        }
        4 => {
            member(&mut ms, "jsonrpc", b"null");
            false
        }
        _ => false,
    };
    // Absent, valid or something no id can be.
    let (has_id, id) = match sym::choose(7) {
        0 => (false, None),
        1 => {
            member(&mut ms, "id", b"null");
            (true, Some(Id::Null))
        }
        2 => {
            let d = digit();
            member(&mut ms, "id", &[d]);
            (true, Some(Id::Number((d - b'0') as i64)))
        }
        3 => {
            let c = plain();
            member(&mut ms, "id", &[b'"', c, b'"']);
            (true, Some(Id::String((c as char).to_string())))
        }
        4 => {
            let d = digit();
            sym::assume(d != b'0');
            member(&mut ms, "id", &[b'-', d]);
            (true, Some(Id::Number(-((d - b'0') as i64))))
        }
        5 => {
            member(&mut ms, "id", b"[1]");
            (true, None)
        }
        _ => {
            member(&mut ms, "id", b"true");
            (true, None)
        }
    };
    let result = match sym::choose(3) {
        0 => None,
        1 => {
            member(&mut ms, "result", b"null");
            Some(Value::Null)
        }
        _ => {
            let d = digit();
            member(&mut ms, "result", &[b'[', d, b']']);
            Some(json!([d - b'0']))
        }
    };
    let (has_error, error) = match sym::choose(6) {
        0 => (false, None),
        1 => {
            let d = digit();
            member(&mut ms, "error", &[&b"{\"code\":"[..], &[d], b",\"message\":\"x\"}"].concat());
            (true, Some(Error { code: ErrorCode::from((d - b'0') as i64), message: "x".into(), data: None }))
        }
        2 => {
            member(&mut ms, "error", b"{\"message\":\"\",\"data\":{\"a\":1},\"code\":-32601}");
            (true, Some(Error { code: ErrorCode::MethodNotFound, message: "".into(), data: Some(json!({"a": 1})) }))
        }
        3 => {
            member(&mut ms, "error", b"{\"code\":1}");
            (true, None)
        }
        4 => {
            member(&mut ms, "error", b"{\"code\":\"1\",\"message\":\"x\"}");
            (true, None)
        }
        _ => {
            member(&mut ms, "error", b"null");
            (true, None)
        }
    };
    // A message with both is neither.
    sym::assume(result.is_none() || !has_error);
    let (bad_method, method) = match sym::choose(3) {
        0 => (false, String::new()),
        1 => {
            let c = plain();
            member(&mut ms, "method", &[b'"', c, b'"']);
            (false, (c as char).to_string())
        }
        _ => {
            member(&mut ms, "method", b"7");
            (true, String::new())
        }
    };
    let params = match sym::choose(3) {
        0 => None,
        1 => {
            member(&mut ms, "params", b"null");
            Some(Value::Null)
        }
        _ => {
            let d = digit();
            member(&mut ms, "params", &[b'[', d, b']']);
            Some(json!([d - b'0']))
        }
    };
    match sym::choose(orders) {
        0 => (),
        1 => ms.reverse(),
        _ => {
            // A member the specification does not know.
            member(&mut ms, "extra", b"{\"id\":0}");
            let n = 2 % ms.len();
            ms.rotate_left(n);
        }
    }
    let mut body = b"{".to_vec();
    body.extend_from_slice(&ms.join(&b','));
    body.push(b'}');

    let mut t = rec_server();
    IN.get().push(&frame(&body));
    IN.get().push(&frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"end\",\"id\":77}"));
    t.run();
    let mut want_seen = vec![];
    let mut want_out = vec![];
    let mut want_resp = vec![];
    let answer = match (result, error) {
        (Some(v), _) => Some(Ok(v)),
        (_, Some(e)) => Some(Err(e)),
        _ => None,
    };
    match (id, answer) {
        (Some(id), Some(b)) if ver => {
            sym::reach(2);
            want_resp.push(Response::from_parts(id, b));
        }
        (id, _) if ver && !bad_method && has_id == id.is_some() => {
            sym::reach(3);
            let mut r = Request::build(method);
            if let Some(p) = params {
                r = r.params(p);
            }
            if let Some(id) = id {
                want_out.push(json!({"jsonrpc": "2.0", "result": null, "id": serde_json::to_value(&id).unwrap()}));
                r = r.id(id);
            }
            want_seen.push(r.finish());
        }
        _ => {
            sym::reach(4);
            want_out.push(Value::Null);
        }
    }
    want_seen.push(Request::build("end").id(77).finish());
    want_out.push(json!({"jsonrpc": "2.0", "result": null, "id": 77}));
    sym::check(*SEEN.get() == want_seen, "C12: the service got other requests than were sent");
    sym::check(*RESPS.get() == want_resp, "C12: the client handle got other responses than were sent");
    let out = written("C12: output is not framed");
    sym::check(out.len() == want_out.len(), "C12: an object was answered that should not have been, or the other way around");
    for (o, w) in out.iter().zip(&want_out) {
        if w.is_null() {
            sym::check(o["error"]["code"] == -32600 && o.get("id") == Some(&Value::Null), "C12: an object that is neither request nor response was not answered with -32600");
        } else {
            sym::check(o == w, "C12: a request was answered differently");
        }
    }
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c12_e() {
    classify(1)
}
#[no_mangle]
pub extern "C" fn h_c12_e_t() {
    classify(3)
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c12_a", h_c12_a),
    ("h_c12_a2", h_c12_a2),
    ("h_c12_b", h_c12_b),
    ("h_c12_b2", h_c12_b2),
    ("h_c12_c", h_c12_c),
    ("h_c12_d", h_c12_d),
    ("h_c12_e", h_c12_e),
    ("h_c12_e_t", h_c12_e_t),
];
