//! C02: malformed input is answered and skipped; everything well-formed after it is processed.

use crate::rt::*;
use crate::sym;
use crate::wire::*;
use serde_json::{json, Value};
use tower_lsp::jsonrpc::Request;

/// A well-formed request; `n` is its id.
fn good(n: i64) -> Vec<u8> {
    let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":".to_vec();
    b.push(b'0' + n as u8);
    b.push(b'}');
    frame(&b)
}

/// The codes of the error replies, all of which must carry a null id; other replies must answer the
/// good frames 1..=n in order.
fn replies(n: i64) -> Vec<i64> {
    let mut codes = vec![];
    let mut next = 1;
    for v in written("C02: output is not framed") {
        match v.get("error") {
            Some(e) => {
                sym::check(v.get("id") == Some(&Value::Null), "C02: error reply without a null id");
                let c = e["code"].as_i64().unwrap_or(0);
                sym::check(c == -32700 || c == -32600, "C02: error reply with another code");
                codes.push(c);
            }
            None => {
                sym::check(v == json!({"jsonrpc": "2.0", "result": null, "id": next}), "C02: unexpected reply");
                next += 1;
            }
        }
    }
    sym::check(next - 1 == n, "C02: a well-formed frame after a malformed one was not processed");
    codes
}

fn processed(n: i64) {
    let want: Vec<Request> = (1..=n).map(|i| Request::build("m").id(i).finish()).collect();
    sym::check(*SEEN.get() == want, "C02: a well-formed frame after a malformed one was not processed");
}

/// Runs `bad` followed by two good frames, in one piece or in two, and returns the error codes.
fn run(bad: &[u8], cut: Option<usize>) -> Vec<i64> {
    let mut t = rec_server();
    let mut all = bad.to_vec();
    all.extend_from_slice(&good(1));
    let cut = cut.unwrap_or(all.len()).min(all.len());
    t.run();
    IN.get().push(&all[..cut]);
    t.run();
    IN.get().push(&all[cut..]);
    t.run();
    processed(1);
    let codes = replies(1);
    IN.get().push(&good(2));
    t.run();
    processed(2);
    sym::check(replies(2) == codes, "C02: a well-formed frame was answered with an error");
    IN.get().close();
    t.run();
    sym::check(t.done(), "C02: serve does not end with its input");
    sym::check(replies(2) == codes, "C02: a well-formed frame was answered with an error");
    processed(2);
    for c in &codes {
        sym::log(*c as u64);
    }
    sym::reach(1);
    codes
}

/// What the body of a frame is, judged without the code under test.
#[derive(PartialEq)]
enum Kind {
    Empty,
    NotJson,
    NotRpc,
    Rpc,
}
fn judge(b: &[u8]) -> Kind {
    if b.is_empty() {
        return Kind::Empty;
    }
    let v: Value = match std::str::from_utf8(b).ok().and_then(|s| serde_json::from_str(s).ok()) {
        Some(v) => v,
        None => return Kind::NotJson,
    };
    let m = match v {
        Value::Object(m) => m,
        _ => return Kind::NotRpc,
    };
    if m.get("jsonrpc") != Some(&Value::from("2.0")) {
        return Kind::NotRpc;
    }
    let id_ok = match m.get("id") {
        None | Some(Value::Null) | Some(Value::String(_)) => true,
        Some(Value::Number(n)) => n.is_i64(),
        _ => false,
    };
    let method_ok = matches!(m.get("method"), None | Some(Value::String(_)));
    if id_ok && method_ok {
        Kind::Rpc
    } else {
        Kind::NotRpc
    }
}

fn bad_body(b: &[u8], cut: Option<usize>) {
    let k = judge(b);
    sym::assume(k != Kind::Rpc);
    let codes = run(&frame(b), cut);
    match k {
        Kind::Empty => sym::check(codes.is_empty(), "C02: an empty frame was answered"),
        Kind::NotJson => {
            sym::reach(2);
            sym::check(codes == [-32700], "C02: a body that is not JSON was not answered by exactly one -32700")
        }
        _ => {
            sym::reach(3);
            sym::check(codes == [-32600], "C02: JSON that is no message was not answered by exactly one -32600")
        }
    }
}

fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    sym::bytes(&mut v);
    v
}

/// Any body of up to `n` bytes.
fn any_body(n: usize) {
    let n = 1 + sym::choose(n);
    bad_body(&bytes(n), None)
}
#[no_mangle]
pub extern "C" fn h_c02_a() {
    any_body(2)
}
#[no_mangle]
pub extern "C" fn h_c02_a_t() {
    any_body(3)
}

/// JSON-RPC messages in which some bytes are arbitrary.
fn template(two: bool) {
    const T: &[&[u8]] = &[
        b"{\"jsonrpc\":\"2.?\",\"method\":\"m\"}",
        b"{\"jsonrpc\":?,\"method\":\"m\",\"id\":1}",
        b"{\"jsonrpc\":\"2.0\",\"method\":?,\"id\":1}",
        b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":?}",
        b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":[?]}",
        b"{\"jsonrp?\":\"2.0\",\"method\":\"m\",\"id\":1}",
        b"?\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":1}",
        b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":1?",
        b"{\"jsonrpc\":\"2.0\",\"method\":\"?\",\"id\":{}}",
        b"[{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":?}]",
        b"{\"jsonrpc\":\"2.0\",\"result\":?,\"id\":{}}",
        b"{\"jsonrpc\":\"2.0\",\"params\":\"?",
        b"{\"jsonrpc\":\"1.0\",\"method\":\"\\u00?0\"}",
        b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"id\":1.5?}",
        b"{}?",
    ];
    let t = sym::pick(T);
    let mut b = vec![];
    for &c in t {
        if c == b'?' {
            b.extend_from_slice(&bytes(if two { 2 } else { 1 }));
        } else {
            b.push(c);
        }
    }
    bad_body(&b, None)
}
#[no_mangle]
pub extern "C" fn h_c02_b() {
    template(false)
}
#[no_mangle]
pub extern "C" fn h_c02_b_t() {
    template(true)
}

/// Truncated messages: every prefix of one, as a whole body, split anywhere.
#[no_mangle]
pub extern "C" fn h_c02_c() {
    let c = plain();
    let mut m = b"{\"jsonrpc\":\"2.0\",\"method\":\"".to_vec();
    m.push(c);
    m.extend_from_slice(b"\",\"params\":[1,{\"a\":null}],\"id\":\"x\"}");
    let n = 1 + sym::choose(m.len() - 1);
    let f = frame(&m[..n]).len();
    bad_body(&m[..n], Some(sym::pick(&[0, 16, 19, 22, f - 1, f, f + 1])))
}

/// Whether header lines are all of the form `name: value`, ending at a line break.
fn header_lines(b: &[u8]) -> bool {
    let mut line = &b[0..0];
    let mut rest = b;
    while !rest.is_empty() {
        match rest.iter().position(|c| *c == b'\n') {
            None => return false,
            Some(i) => {
                line = &rest[..i];
                rest = &rest[i + 1..];
            }
        }
        if !line.contains(&b':') {
            return false;
        }
    }
    let _ = line;
    true
}

fn garbage(g: &[u8], cut: Option<usize>) {
    let codes = run(g, cut);
    if !header_lines(g) {
        sym::reach(4);
        sym::check(codes.contains(&-32700), "C02: an unreadable header block was not answered with -32700");
    }
}

/// Arbitrary bytes before a well-formed frame.
#[no_mangle]
pub extern "C" fn h_c02_d() {
    let n = 1 + sym::choose(4);
    garbage(&bytes(n), None)
}
#[no_mangle]
pub extern "C" fn h_c02_d_t() {
    let n = 1 + sym::choose(8);
    garbage(&bytes(n), None)
}
/// The same in two pieces.
#[no_mangle]
pub extern "C" fn h_c02_e() {
    let n = 1 + sym::choose(3);
    let cut = sym::choose(n + 20);
    garbage(&bytes(n), Some(cut))
}
#[no_mangle]
pub extern "C" fn h_c02_e_t() {
    let n = 1 + sym::choose(5);
    let cut = sym::choose(n + 40);
    garbage(&bytes(n), Some(cut))
}

/// Header blocks that are wrong in a specific way, followed by a body and split anywhere.
#[no_mangle]
pub extern "C" fn h_c02_f() {
    const H: &[&[u8]] = &[
        b"Content-Length: ?\r\n\r\n",
        b"Content-Length: -1\r\n\r\n",
        b"Content-Length: 99999999999999999999\r\n\r\n",
        b"Content-Length: \r\n\r\n",
        b"Content-Length: 1 1\r\n\r\n",
        b"Content-Lengthy: 1\r\n\r\n",
        b"Content-Length?: 1\r\n\r\n",
        b"X: ?\r\n\r\n",
        b"Content-Type: text/plain\r\n\r\n",
        b"Content-Type: text/plain; charset=utf-?\r\nContent-Length: 2\r\n\r\n",
        b"Content-Length: 2\r\nContent-Type: text/plain; charset=latin1\r\n\r\n",
        b"Content-Length: 2\r\nA: b\r\nC: d\r\n\r\n",
        b"Content-Length: \xff\r\n\r\n",
        b"Content-Type: \xff\r\nContent-Length: 2\r\n\r\n",
        b"Content-Length: 2\r\n?\r\n\r\n",
        b"Content-Length",
    ];
    let t = sym::pick(H);
    let c = sym::u8();
    sym::assume(!c.is_ascii_digit() && c != b'8' && c != b'+');
    let mut b: Vec<u8> = t.iter().map(|x| if *x == b'?' { c } else { *x }).collect();
    // A block that states a length is followed by as much.
    let two = t.windows(17).any(|w| w == b"Content-Length: 2");
    let body: &[u8] = sym::pick::<&[u8]>(if two { &[b"{}", b"Co", b"\r\n", b"\xff\0"] } else { &[b"", b"{}", b"Content", b"\r\n"] });
    b.extend_from_slice(body);
    let cut = sym::choose(b.len() + 20);
    let codes = run(&b, Some(cut));
    sym::reach(5);
    sym::check(codes.contains(&-32700), "C02: an unreadable header block was not answered with -32700");
}

/// Input that ends anywhere in a frame, after a good one.
#[no_mangle]
pub extern "C" fn h_c02_g() {
    let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"".to_vec();
    b.push(plain());
    b.extend_from_slice(b"\",\"id\":2}");
    let f = frame(&b);
    let n = sym::choose(f.len());
    let mut t = rec_server();
    IN.get().push(&good(1));
    t.run();
    if sym::flip() {
        IN.get().push(&f[..n]);
        t.run();
        processed(1);
        IN.get().close();
    } else {
        IN.get().push(&f[..n]);
        IN.get().close();
    }
    t.run();
    sym::check(t.done(), "C02: serve does not end with its input");
    processed(1);
    let codes = replies(1);
    sym::check(codes.is_empty() || n > 0 && codes == [-32700], "C02: wrong reply to a truncated frame");
    sym::log(codes.len() as u64);
    sym::reach(1);
}

/// Announced lengths that cannot be had.
#[no_mangle]
pub extern "C" fn h_c02_h() {
    const N: &[&[u8]] = &[
        b"18446744073709551615", b"09223372036854775807", b"9223372036854775808", b"1099511627776", b"4294967296", b"99999999",
        b"00000000000000000000000000?",
    ];
    let mut num = sym::pick(N).to_vec();
    // One digit is arbitrary.
    let i = sym::choose(num.len());
    num[i] = digit();
    if num[num.len() - 1] == b'?' {
        num[26] = digit();
        sym::assume(num[26] > b'0' || i < 26 && num[i] > b'0');
    }
    let digits: Vec<u8> = num.iter().copied().skip_while(|c| *c == b'0').collect();
    let fits = digits.len() < 20 || digits.len() == 20 && digits[..] <= b"18446744073709551615"[..];
    let mut b = b"Content-Length: ".to_vec();
    b.extend_from_slice(&num);
    b.extend_from_slice(b"\r\n\r\n");
    if !fits {
        sym::reach(6);
        let codes = run(&b, None);
        sym::check(codes.contains(&-32700), "C02: an unreadable header block was not answered with -32700");
        return;
    }
    let mut t = rec_server();
    IN.get().push(&good(1));
    IN.get().push(&b);
    t.run();
    processed(1);
    sym::assume(digits.len() > 4);
    IN.get().push(b"Content-Length: 2\r\n\r\n{}");
    t.run();
    processed(1);
    sym::check(replies(1).is_empty(), "C02: a body that has not arrived was answered");
    IN.get().close();
    t.run();
    sym::check(t.done(), "C02: serve does not end with its input");
    processed(1);
    let codes = replies(1);
    sym::check(codes.is_empty() || codes == [-32700], "C02: wrong reply to a truncated frame");
    sym::reach(1);
}

/// Malformed and good frames while so much output is waiting that the writer takes no more.
#[no_mangle]
pub extern "C" fn h_c02_i() {
    let mut t = rec_server();
    OUT.get().room = Some(sym::pick(&[0usize, 9000]));
    SEND.get().push(Request::build("big").params(Value::from("x".repeat(9000))).finish());
    t.run();
    let mut want = vec![];
    let mut n = 0;
    for _ in 0..4 {
        match sym::choose(3) {
            0 => {
                IN.get().push(&frame(b"{"));
                want.push(-32700);
            }
            1 => {
                IN.get().push(&frame(b"[1]"));
                want.push(-32600);
            }
            _ => {
                n += 1;
                IN.get().push(&good(n));
            }
        }
        t.run();
    }
    if sym::flip() {
        IN.get().close();
        t.run();
    }
    OUT.get().allow(None);
    t.run();
    IN.get().close();
    SEND.get().finish();
    t.run();
    sym::check(t.done(), "C02: serve does not end with its input");
    processed(n);
    let out = bodies(&OUT.get().data, true, "C02: output is not framed");
    let big = out.iter().position(|b| b.len() > 9000).unwrap();
    let mut all = out;
    all.remove(big);
    let mut codes = vec![];
    let mut next = 0;
    for b in &all {
        let v: Value = serde_json::from_slice(b).unwrap();
        match v["error"]["code"].as_i64() {
            Some(c) => codes.push(c),
            None => next += 1,
        }
    }
    sym::check(next == n, "C02: a well-formed frame was not answered exactly once");
    sym::check(codes == want, "C02: not every malformed frame was answered exactly once");
    sym::reach(1);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c02_a", h_c02_a),
    ("h_c02_a_t", h_c02_a_t),
    ("h_c02_b", h_c02_b),
    ("h_c02_b_t", h_c02_b_t),
    ("h_c02_c", h_c02_c),
    ("h_c02_d", h_c02_d),
    ("h_c02_d_t", h_c02_d_t),
    ("h_c02_e", h_c02_e),
    ("h_c02_e_t", h_c02_e_t),
    ("h_c02_f", h_c02_f),
    ("h_c02_g", h_c02_g),
    ("h_c02_h", h_c02_h),
    ("h_c02_i", h_c02_i),
];
