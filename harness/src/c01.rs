//! C01: decoding does not depend on how the stream is split.

use crate::rt::*;
use crate::sym;
use crate::wire::*;
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Id, Request, Response};

enum Want {
    Req(Request),
    Resp(Response),
    Nothing,
}

/// Frame `kind` with symbolic content and what the server must make of it.
fn make(kind: usize) -> (Vec<u8>, Want) {
    let c = plain();
    let d = digit();
    let n = (d - b'0') as i64;
    let s = |v: &[u8]| unsafe { String::from_utf8_unchecked(v.to_vec()) };
    match kind {
        // A request with an id and a string parameter.
        0 => {
            let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":[\"".to_vec();
            b.push(c);
            b.extend_from_slice(b"\"],\"id\":");
            b.push(d);
            b.push(b'}');
            (frame(&b), Want::Req(Request::build("m").params(json!([s(&[c])])).id(n).finish()))
        }
        // An empty body.
        1 => (frame(b""), Want::Nothing),
        // A notification with a two-byte character, and a content type before the length.
        2 => {
            sym::assume(c >= 0x20 && c < 0x40);
            let u = [0xc3, 0x80 | c & 0x1f];
            let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"".to_vec();
            b.extend_from_slice(&u);
            b.extend_from_slice(b"\"}");
            let mut f = b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n".to_vec();
            f.extend_from_slice(&frame(&b));
            (f, Want::Req(Request::build(s(&u)).finish()))
        }
        // A response, with the content type after the length and the other spelling of the charset.
        3 => {
            let mut b = b"{\"jsonrpc\":\"2.0\",\"result\":".to_vec();
            b.push(d);
            b.extend_from_slice(b",\"id\":\"");
            b.push(c);
            b.extend_from_slice(b"\"}");
            let mut f = b"Content-Length: ".to_vec();
            f.extend_from_slice(&dec(b.len()));
            f.extend_from_slice(b"\r\nContent-Type: application/vscode-jsonrpc; charset=utf8\r\n\r\n");
            f.extend_from_slice(&b);
            (f, Want::Resp(Response::from_ok(Id::String(s(&[c])), json!(n))))
        }
        // White space around and inside the body, and text in it that looks like a header.
        4 => {
            let mut b = b" \r\n{\"jsonrpc\" : \"2.0\",\"method\":\"Content-Length: 1\",\r\n\r\n\"params\":{\"".to_vec();
            b.push(c);
            b.extend_from_slice(b"\":null} }\n\t");
            let mut m = serde_json::Map::new();
            m.insert(s(&[c]), Value::Null);
            (frame(&b), Want::Req(Request::build("Content-Length: 1").params(Value::Object(m)).finish()))
        }
        // No space after the colon, and a name and parameters that need escapes.
        _ => {
            let mut b = b"{\"id\":null,\"method\":\"\\n\",\"jsonrpc\":\"2.0\",\"params\":\"\\u0041".to_vec();
            b.push(c);
            b.extend_from_slice(b"\"}");
            let mut f = b"Content-Length:".to_vec();
            f.extend_from_slice(&dec(b.len()));
            f.extend_from_slice(b"\r\n\r\n");
            f.extend_from_slice(&b);
            (f, Want::Req(Request::build("\n").params(json!(s(&[b'A', c]))).id(Id::Null).finish()))
        }
    }
}
const KINDS: usize = 6;

struct Stream {
    bytes: Vec<u8>,
    /// Where each frame ends.
    ends: Vec<usize>,
    want: Vec<Want>,
}
fn stream(kinds: &[usize]) -> Stream {
    let mut s = Stream { bytes: vec![], ends: vec![], want: vec![] };
    for &k in kinds {
        let (f, w) = make(k);
        s.bytes.extend_from_slice(&f);
        s.ends.push(s.bytes.len());
        s.want.push(w);
    }
    s
}

/// Everything complete in the first `n` bytes has been acted on, and nothing else.
fn expect(s: &Stream, n: usize) {
    let (mut q, mut r) = (0, 0);
    for i in 0..s.want.len() {
        if s.ends[i] > n {
            break;
        }
        match &s.want[i] {
            Want::Req(w) => {
                sym::check(SEEN.get().len() > q, "C01: a message was not acted on when its last byte had arrived");
                sym::check(SEEN.get()[q] == *w, "C01: the service got another request than the one framed");
                q += 1;
            }
            Want::Resp(w) => {
                sym::check(RESPS.get().len() > r, "C01: a response was not delivered when its last byte had arrived");
                sym::check(RESPS.get()[r] == *w, "C01: the client socket got another response than the one framed");
                r += 1;
            }
            Want::Nothing => {}
        }
    }
    sym::check(SEEN.get().len() == q && RESPS.get().len() == r, "C01: the server acted on something that was not framed");
    sym::log(q as u64 * 10 + r as u64);
}

/// Feeds the stream in pieces that end at `cuts`, and checks after each piece.
fn feed(s: &Stream, cuts: &[usize], chunk: usize) {
    let mut t = rec_server();
    IN.get().chunk = chunk;
    t.run();
    let mut at = 0;
    for &c in cuts.iter() {
        at = piece(&mut t, s, at, c);
    }
    last(t, s, at)
}

/// Feeds the stream in up to `n` + 1 pieces of any sizes.
fn split(s: &Stream, n: usize) {
    let mut t = rec_server();
    t.run();
    let (mut at, mut left) = (0, n);
    for c in 1..s.bytes.len() {
        if left > 0 && sym::flip() {
            at = piece(&mut t, s, at, c);
            left -= 1;
        }
    }
    last(t, s, at)
}

fn piece(t: &mut Task<()>, s: &Stream, at: usize, end: usize) -> usize {
    if end > at {
        IN.get().push(&s.bytes[at..end]);
        t.run();
    }
    expect(s, end.max(at));
    end.max(at)
}

fn last(mut t: Task<()>, s: &Stream, at: usize) {
    let at = piece(&mut t, s, at, s.bytes.len());
    IN.get().close();
    t.run();
    sym::check(t.done(), "C01: serve does not end with its input");
    expect(s, at);
    let errors = written("C01: output is not framed").iter().filter(|v| v.get("error").is_some()).count();
    sym::check(errors == 0, "C01: a well-formed frame was answered with an error");
    sym::reach(1);
}

/// Two frames of any kinds, split anywhere.
#[no_mangle]
pub extern "C" fn h_c01_a() {
    let s = stream(&[sym::choose(KINDS), sym::choose(KINDS)]);
    split(&s, 1);
}

/// Three frames of any kinds, one byte at a time.
#[no_mangle]
pub extern "C" fn h_c01_b() {
    let s = stream(&[sym::choose(KINDS), sym::choose(KINDS), sym::choose(KINDS)]);
    let cuts: Vec<usize> = (0..s.bytes.len()).collect();
    feed(&s, &cuts, 0);
}

/// Three frames of any kinds at once, with reads of 1 to `n` bytes.
#[no_mangle]
pub extern "C" fn h_c01_c() {
    let s = stream(&[sym::choose(KINDS), sym::choose(KINDS), sym::choose(KINDS)]);
    feed(&s, &[], 1 + sym::choose(8) * 7);
}

/// An empty frame, a short and a longer one, split at any two places.
#[no_mangle]
pub extern "C" fn h_c01_d() {
    let s = stream(&[1, [0, 3][sym::choose(2)]]);
    split(&s, 2);
}
/// Two frames of any kinds, split at any two places.
#[no_mangle]
pub extern "C" fn h_c01_d_t() {
    let s = stream(&[sym::choose(KINDS), sym::choose(KINDS)]);
    split(&s, 2);
}

/// A body larger than the read buffer, with a small one before and behind it.
#[no_mangle]
pub extern "C" fn h_c01_e() {
    let mut s = stream(&[sym::choose(2)]);
    let n = sym::pick(&[90usize, 990, 8100, 8192, 9990, 20000]);
    let c = plain();
    let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":[\"".to_vec();
    b.resize(b.len() + n, b'x');
    b.push(c);
    b.extend_from_slice(b"\"]}");
    let mut w = vec![b'x'; n];
    w.push(c);
    s.bytes.extend_from_slice(&frame(&b));
    s.ends.push(s.bytes.len());
    s.want.push(Want::Req(Request::build("m").params(json!([unsafe { String::from_utf8_unchecked(w) }])).finish()));
    let (f, w) = make(0);
    s.bytes.extend_from_slice(&f);
    s.ends.push(s.bytes.len());
    s.want.push(w);
    let cut = sym::pick(&[1usize, 4096, 8191, 8192, 8193, 9000]).min(s.bytes.len());
    feed(&s, &[cut], sym::pick(&[0usize, 1000]));
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c01_a", h_c01_a),
    ("h_c01_b", h_c01_b),
    ("h_c01_c", h_c01_c),
    ("h_c01_d", h_c01_d),
    ("h_c01_d_t", h_c01_d_t),
    ("h_c01_e", h_c01_e),
];
