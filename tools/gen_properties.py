#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program only for readability of the long strings)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Incoming frames decode the same however the byte stream is split",
     "For every sequence of well-formed frames (headers in any supported order, optional Content-Type, zero-length bodies) and every way the transport splits the byte stream into reads, the server acts on exactly the framed messages, each once, in order, as soon as its last byte has arrived. No message waits for bytes that belong to a later message.",
     ["inputs", "schedules"], "every body content and length, header layout, and split of the stream into reads, within the stated sizes",
     "The codec tests feed one frame in a handful of fixed chunkings; message bytes, several frames back to back and the split points are not quantified over.",
     ["src/codec.rs", "src/transport.rs"],
     [("LanguageServerCodec::decode", "src/codec.rs"), ("decode_headers", "src/codec.rs"), ("Server::serve read loop", "src/transport.rs")],
     [("content_len", "body length announced by the last complete header block", "src/codec.rs")],
     ["requests that reach the service", "bytes written to stdout"])
prop("C02", "Malformed input gets one error reply and never stops the server",
     "Whatever bytes arrive, the server never panics, hangs or spins. A frame whose body is not valid JSON is answered by exactly one error response with a null id and code -32700, a frame holding JSON that is not a JSON-RPC message by one with code -32600, an unreadable header block (up to its blank line) by at least one -32700, and every well-formed frame that follows is still processed as if the malformed one had not been there. A readable Content-Length always consumes that many bytes of body, and this holds also while output is held back.",
     ["inputs", "schedules"], "every byte string in header and body position within the stated sizes, followed by a valid frame, under several read splits",
     "One test exercises one garbage prefix; invalid UTF-8, invalid header syntax, missing headers, wrong lengths and truncated bodies are an unbounded input space.",
     ["src/codec.rs", "src/transport.rs"],
     [("LanguageServerCodec::decode error path / resynchronisation", "src/codec.rs"), ("to_jsonrpc_error", "src/transport.rs"), ("serve read loop", "src/transport.rs")],
     (), ["bytes written to stdout", "requests that reach the service"])
prop("C03", "Outgoing frames are exact, whole and never interleaved",
     "Everything the server writes is a concatenation of frames, each consisting of a Content-Length header equal to the byte length of its JSON body, a blank line and that body. This holds for every message content, and however few bytes the output accepts per write and whenever it stalls.",
     ["inputs", "schedules"], "every string content (any bytes needing escaping, multi-byte characters), id and writer acceptance pattern within the stated sizes",
     "Unit tests encode two constant ASCII messages into a Vec that accepts everything at once.",
     ["src/codec.rs", "src/transport.rs"],
     [("LanguageServerCodec::encode", "src/codec.rs"), ("print_output select/forward", "src/transport.rs")],
     (), ["bytes written to stdout"])
prop("C04", "Every request gets exactly one response with its id; notifications none",
     "While the server is running and has not received exit, every well-formed request read from the client is eventually answered by exactly one response that carries the same id and its own handler's result or error (-32603 if the result cannot be serialized), and no notification is answered. This holds for any mix of requests and notifications with distinct ids, whatever order their handlers finish in.",
     ["schedules", "inputs", "histories"], "every sequence of up to the stated number of messages of every kind (numeric, string and null ids) and every completion order of their handlers",
     "Tests call one handler at a time and await it at once; handler completion orders and message mixes are not enumerated.",
     ["src/transport.rs", "src/service.rs", "src/service/layers.rs", "src/service/pending.rs", "src/jsonrpc/router.rs"],
     [("buffer_unordered pipeline", "src/transport.rs"), ("Pending::execute", "src/service/pending.rs"), ("MethodHandler::call", "src/jsonrpc/router.rs")],
     [("pending requests", "ids with a handler in flight", "src/service/pending.rs")],
     ["response values returned by the service", "bytes written to stdout"])
prop("C05", "Requests outside the initialized phase are refused and run no handler",
     "Before an initialize request has been answered successfully, every other request for a known method is refused with error -32002; after shutdown was received every such request is refused with -32600; in both phases no handler runs and notifications other than exit are silently dropped. Between the two phases every known request reaches its handler.",
     ["histories", "schedules", "inputs"], "every sequence of lifecycle and ordinary messages up to the stated length, with any handler outcomes and completion order",
     "Three fixed sequences are tested (and not in the reliable set); the state machine must hold for every history including in-flight handlers.",
     ["src/service/layers.rs", "src/service/state.rs", "src/service.rs"],
     [("NormalService::call", "src/service/layers.rs"), ("not_initialized_response", "src/service/layers.rs"), ("ShutdownService::call", "src/service/layers.rs")],
     [("ServerState", "lifecycle phase", "src/service/state.rs")],
     ["responses", "handler invocations"])
prop("C06", "initialize takes effect at most once and shutdown runs at most once",
     "At most one initialize handler is ever running, and once one has succeeded no other runs: any further initialize request is answered with -32600, while one that failed may be retried. The shutdown handler runs at most once, only after a successful initialize, and no later event ever takes the server back out of the shut-down or exited phase.",
     ["histories", "schedules"], "every sequence of initialize, shutdown and exit messages up to the stated length, with any outcome and completion time of the handlers",
     "Tests await every initialize before sending the next message; two in flight, failure and retry, or shutdown/exit while initialize is in flight are never explored.",
     ["src/service/layers.rs", "src/service/state.rs", "src/service.rs"],
     [("InitializeService::call", "src/service/layers.rs"), ("ShutdownService::call", "src/service/layers.rs"), ("LspService::poll_ready", "src/service.rs")],
     [("ServerState", "lifecycle phase", "src/service/state.rs")],
     ["responses", "handler invocations"])
prop("C07", "Cancellation stops exactly the named request and answers it once",
     "A $/cancelRequest naming an in-flight request makes that request resolve to exactly one response, error -32800, without its handler finishing, and leaves every other request untouched. A cancellation for an unknown, finished or already cancelled id changes nothing, numeric and string ids are never confused, and a later request may reuse the id and be cancelled itself.",
     ["histories", "schedules", "inputs"], "every interleaving of requests, cancellations and handler completions up to the stated length, with symbolic ids",
     "One test cancels one never-ending request with one fixed id.",
     ["src/service/pending.rs", "src/service/layers.rs", "tower-lsp-macros/src/lib.rs"],
     [("Pending::cancel/execute", "src/service/pending.rs"), ("cancel_request", "tower-lsp-macros/src/lib.rs")],
     [("pending requests", "abort handles by id", "src/service/pending.rs")],
     ["responses", "handler progress"])
prop("C08", "A request reusing the id of one in flight is rejected without harm",
     "A request whose id equals that of a request still in flight is answered with -32600 and its handler does not run; the earlier request still completes normally and can still be cancelled. An id is free for reuse once its request has been answered, and ids that are not equal never collide.",
     ["histories", "inputs", "schedules"], "every pair and sequence of ids (numeric, string, null) and completion orders up to the stated length",
     "No test sends two requests with the same id concurrently.",
     ["src/service/pending.rs", "src/service/layers.rs", "src/jsonrpc.rs"],
     [("Pending::execute entry", "src/service/pending.rs"), ("Id Eq/Hash", "src/jsonrpc.rs")],
     [("pending requests", "abort handles by id", "src/service/pending.rs")],
     ["responses", "handler invocations"])
prop("C09", "exit stops everything: in-flight work is cancelled and serve returns",
     "After an exit notification, received in any phase, every in-flight request resolves to -32800, the service refuses further calls and readiness checks with ExitedError, the stream of client requests ends and the response sink reports ExitedError. A running serve loop terminates once another message has arrived or the input has ended, whatever that message is, provided the output accepts data and the notification handlers still running finish.",
     ["histories", "schedules"], "exit at every point of every message sequence up to the stated length, with any in-flight handlers and any input following it",
     "One test sends exit to an idle service; in-flight handlers, open client streams, the serve loop and input after exit are not covered.",
     ["src/service/layers.rs", "src/service.rs", "src/service/client/socket.rs", "src/transport.rs", "src/service/pending.rs"],
     [("ExitService::call", "src/service/layers.rs"), ("Pending::cancel_all", "src/service/pending.rs"), ("Client::close", "src/service/client.rs"), ("read_input loop", "src/transport.rs")],
     [("ServerState::Exited", "terminal phase", "src/service/state.rs")],
     ["service results", "stream end", "termination of serve"])
prop("C10", "Each server-to-client request resolves with its own response",
     "Requests sent through any clone of the client carry pairwise distinct ids, and each resolves exactly once with the response bearing its id, whatever the order in which responses arrive. A response with an unknown, null, repeated or abandoned id disturbs nothing and never panics; an error response is returned as that error, and a result of the wrong shape as an error.",
     ["schedules", "inputs", "histories"], "every arrival order of responses, with symbolic response ids, payload kinds and abandoned waiters, up to the stated number of requests",
     "Tests route two responses for one id in a fixed order; ids chosen by the peer, late or duplicate responses and dropped callers are not explored.",
     ["src/service/client.rs", "src/service/client/pending.rs", "src/service/client/socket.rs"],
     [("Pending::insert/wait", "src/service/client/pending.rs"), ("next_request_id", "src/service/client.rs"), ("Client::call", "src/service/client.rs")],
     [("pending client requests", "waiters by id", "src/service/client/pending.rs")],
     ["value returned to the caller", "messages emitted on the client socket"])
prop("C11", "The client handle is gated by the lifecycle phase",
     "Before initialization succeeds, ordinary client requests fail with -32002 and ordinary client notifications are suppressed, both without emitting anything, whereas show_message, log_message, telemetry_event and show_message_request are always emitted. Between successful initialization and exit all of them are emitted; after exit nothing is emitted and requests fail.",
     ["histories", "configurations"], "every kind of client call in every lifecycle phase reached through real messages",
     "Client tests force one state and call four notifications; the phases and the other calls are not crossed.",
     ["src/service/client.rs", "src/service/state.rs"],
     [("send_notification/send_request", "src/service/client.rs"), ("send_*_unchecked", "src/service/client.rs")],
     [("ServerState", "lifecycle phase", "src/service/state.rs")],
     ["messages emitted on the client socket", "values returned to callers"])
prop("C12", "JSON-RPC values survive serialization and are classified correctly",
     "Every request, response, id, error code and error object deserializes from its own serialization to an equal value, keeping absent and null params/id/result distinct, and every i64 error code maps to exactly one ErrorCode and back. An incoming object is taken for a response exactly when it is a valid one (jsonrpc \"2.0\", an id and either a result or a valid error object), otherwise for a request; equal ids hash equally.",
     ["inputs"], "every i64 error code; every id, short string and presence pattern of the members within the stated sizes",
     "Unit tests check six fixed documents and two codes.",
     ["src/jsonrpc.rs", "src/jsonrpc/request.rs", "src/jsonrpc/response.rs", "src/jsonrpc/error.rs"],
     [("ErrorCode from/into i64", "src/jsonrpc/error.rs"), ("untagged Id/Message/Kind", "src/jsonrpc.rs"), ("deserialize_some", "src/jsonrpc/request.rs")],
     (), ["values returned by from_str/to_string"])
prop("C13", "Unknown methods are answered with -32601 or ignored",
     "In any phase before exit, a request for a method that is neither part of the protocol nor registered as custom is answered with error -32601 whose data is the method name, and an unknown notification is silently ignored; no handler runs. This holds for every method name, including the empty one, prefixes, extensions and case variants of known names and names starting with $/.",
     ["inputs"], "every method string up to the stated length, and every one-byte change, truncation or extension of known names",
     "Two fixed unknown names are tested.",
     ["src/jsonrpc/router.rs", "src/service.rs"],
     [("Router::call", "src/jsonrpc/router.rs"), ("LspService::call", "src/service.rs")],
     (), ["responses", "handler invocations"])
prop("C14", "Bad params and wrong message kinds never reach a handler",
     "A request whose params are missing, unexpected or of the wrong type is answered with -32602 and a notification with such params is ignored; a notification method called with an id is answered with -32600 and a request method called without an id is ignored. In none of these cases does a handler run, while valid params are handed over unchanged.",
     ["inputs", "configurations"], "every handler shape (with/without params, request/notification) crossed with every presence and type of id and params, with symbolic values",
     "Tests cover four fixed combinations.",
     ["src/jsonrpc/router.rs", "src/service.rs"],
     [("FromParams", "src/jsonrpc/router.rs"), ("MethodHandler::call", "src/jsonrpc/router.rs"), ("IntoResponse", "src/jsonrpc/router.rs")],
     (), ["responses", "handler invocations and their arguments"])
prop("C15", "Every protocol method is routed to its own trait method",
     "Each LSP method name the LanguageServer trait supports invokes exactly the corresponding trait method, with the params that were sent, and requests return that method's value. Every default implementation of a request other than initialize and shutdown answers -32601 and every default notification does nothing.",
     ["inputs", "programs"], "every protocol method (all 65), in both default and overridden implementations, with symbolic marker values",
     "No test routes any of the generated methods except initialize, shutdown and codeAction/resolve; a swapped or misspelt name compiles and passes.",
     ["src/lib.rs", "tower-lsp-macros/src/lib.rs"],
     [("#[rpc(name = ..)] attributes", "src/lib.rs"), ("gen_server_router", "tower-lsp-macros/src/lib.rs")],
     (), ["handler invocations", "responses"])
prop("C16", "At most the configured number of handlers run, started in arrival order",
     "With concurrency level n, never more than n handlers are in progress at once, and handlers start in the order their messages arrived. With level 1 each message is completely processed before the next one starts, and with a larger level a blocked handler does not keep others from finishing as long as fewer than n are blocked.",
     ["schedules", "configurations"], "every level in the stated range and every completion order of the handlers of up to the stated number of messages",
     "No test runs two handlers concurrently through the server.",
     ["src/transport.rs"],
     [("buffer_unordered(max_concurrency)", "src/transport.rs"), ("server task queue", "src/transport.rs")],
     (), ["handler start and finish events"])
prop("C17", "Client traffic and handlers cannot deadlock the server",
     "While a handler is waiting for the client's answer to a request it sent, the server goes on reading input, delivers that answer, and completes the handler, even at concurrency level 1 and while other requests, notifications and client messages (up to the 100 messages the queue holds) are waiting. Every notification and request a handler sends is written out exactly once and in the order that handler sent them.",
     ["schedules", "inputs"], "every interleaving of client responses, further requests, handler progress and output stalls up to the stated length",
     "No test has a handler talk to the client while the server loop runs.",
     ["src/transport.rs", "src/service/client.rs", "src/service/client/socket.rs"],
     [("print_output / read_input / process_server_tasks join", "src/transport.rs"), ("ClientSocket split", "src/service/client/socket.rs")],
     (), ["bytes written to stdout", "handler completion"])
prop("C18", "Progress reporting emits a well-formed begin/report/end sequence",
     "A progress started through the client emits one begin, then each report, then one end, all as $/progress notifications carrying the token it was created with, and each carries exactly the title, message, percentage and cancel button state that were passed for it, absent ones being omitted (a begin without cancel button may say so with false). This holds for numeric and string tokens and every combination of bounded/unbounded and cancellable/non-cancellable.",
     ["inputs", "configurations"], "every combination of the progress kinds and optional values, with symbolic token, percentage and text",
     "There is no test of progress at all.",
     ["src/service/client/progress.rs", "src/service/client.rs"],
     [("Progress::begin", "src/service/client/progress.rs"), ("OngoingProgress::report*/finish*", "src/service/client/progress.rs")],
     (), ["messages emitted on the client socket"])
prop("C19", "Typed client calls emit the right method and params and decode results",
     "Every typed client call emits exactly one message with the protocol's method name and the params given (absent or null where the method has none), as a request with an id when it returns a value and as a notification otherwise, and returns the value or the error the client answered. Telemetry values that are not null, an array or an object are wrapped in an array.",
     ["inputs", "programs"], "every client method with symbolic argument and response values",
     "Tests cover four notifications with constant arguments; no client request method is tested.",
     ["src/service/client.rs", "src/jsonrpc/request.rs"],
     [("Client methods", "src/service/client.rs"), ("Request::from_request/from_notification", "src/jsonrpc/request.rs")],
     (), ["messages emitted on the client socket", "returned values"])
prop("C20", "At end of input every received message is answered before serve returns",
     "When the input ends, serve completes once all handlers of the messages already read have finished, and by then every response has been written and flushed in whole; it neither hangs nor drops, duplicates or truncates a response. Input ending in the middle of a frame ends the session in the same way.",
     ["schedules", "crash_points", "inputs"], "end of input at every byte position of the stated sessions, with any completion order of the handlers and any output acceptance pattern",
     "Tests end the input only after one complete message whose handler is immediately ready.",
     ["src/transport.rs", "src/codec.rs"],
     [("disconnect of task and response channels", "src/transport.rs"), ("forward/close of framed stdout", "src/transport.rs")],
     (), ["bytes written to stdout", "termination of serve"])

prop("C21", "An I/O error ends the session in order and never panics or hangs",
     "When reading the input or writing the output fails, serve neither panics, hangs nor spins. A read error ends the session like the end of the input: everything received before it is still answered. After a write error nothing more is written, what was written before is a prefix of the regular output, and serve returns at the latest when its input has ended and its handlers have finished.",
     ["crash_points", "schedules", "inputs"], "every point of a session at which a read or write may fail or the writer may accept nothing, with any mix of messages and completion order within the stated number of messages",
     "No test makes the input or output fail.",
     ["src/transport.rs", "src/codec.rs"],
     [("forward/close of framed stdout", "src/transport.rs"), ("read_input loop", "src/transport.rs"), ("response and task channels", "src/transport.rs")],
     (), ["bytes written to stdout", "termination of serve"])

prop("C22", "Dropping a request's future frees its id and leaves the service usable",
     "The futures LspService returns may be dropped before they resolve, as timeout middleware does. The handler is dropped with them, the id may be used again at once, an initialize that is dropped may be retried, and every other request, cancellation and lifecycle transition behaves as if the dropped call had ended at that point.",
     ["histories", "crash_points", "schedules"], "every history of lifecycle messages, requests, cancellations, completions, polls and drops up to the stated length, with symbolic ids",
     "No test drops a future.",
     ["src/service/pending.rs", "src/service/layers.rs"],
     [("Pending::execute", "src/service/pending.rs"), ("InitializeService::call", "src/service/layers.rs")],
     [("pending requests", "abort handles by id", "src/service/pending.rs"), ("ServerState", "lifecycle phase", "src/service/state.rs")],
     ["responses", "handler invocations and drops"])

prop("C23", "The runtime-agnostic build serves exactly like the tokio one",
     "Built with the feature runtime-agnostic instead of runtime-tokio, the server decodes incoming frames however the stream is split, answers malformed input, writes exact and whole frames, answers every request once, honours the concurrency limit, exit, the end of the input and I/O errors, and does not deadlock, just as the default build does.",
     ["inputs", "schedules", "configurations"], "the sessions of the transport-level properties, over futures-io transports with every split and acceptance pattern within the stated bounds",
     "The tests run only with the default features; the encoder and the framing of the other build are separate code.",
     ["src/codec.rs", "src/transport.rs", "Cargo.toml"],
     [("Encoder for LanguageServerCodec (runtime-agnostic)", "src/codec.rs"), ("FramedRead/FramedWrite of async-codec-lite", "src/transport.rs")],
     (), ["requests that reach the service", "bytes written to stdout", "termination of serve"])
prop("C24", "The server loop honours the contracts of any service and client socket",
     "Server::serve works with any tower Service and any Loopback. It calls the service only after poll_ready has granted it, hands every message over exactly once and in order, waits while the service or the response sink is not ready, writes each response the service returns exactly once and nothing for calls that return none or fail, and writes every message of the loopback exactly once in order without polling a finished stream or future again. When the service or the sink reports an error, reading stops, the calls already accepted are completed and answered, and serve returns.",
     ["schedules", "histories"], "every history of messages, readiness changes, refusals, call outcomes, client messages and completions up to the stated length",
     "The tests use one service that is always ready and answers at once.",
     ["src/transport.rs"],
     [("read_input / process_server_tasks / print_output", "src/transport.rs"), ("Loopback", "src/transport.rs")],
     (), ["calls the service gets", "responses the sink gets", "bytes written to stdout", "termination of serve"])
prop("C25", "Custom methods follow the rules and never displace another method",
     "A custom method gets exactly the messages that carry its name, under the same rules as the protocol's own (refused with -32002 before initialization and with -32600 after shutdown, cancellable, answered with its result). Registering it changes nothing for any other name, and a name already taken, by the protocol (including initialize, shutdown, exit and $/cancelRequest) or by an earlier registration, keeps the handler it has.",
     ["inputs", "configurations", "histories"], "every set of names and every message name up to the stated length, in every phase, with symbolic ids and params",
     "Custom methods are tested with one fixed name; clashes with other names are not tested.",
     ["src/service.rs", "src/jsonrpc/router.rs", "src/service/layers.rs"],
     [("LspServiceBuilder::custom_method", "src/service.rs"), ("Router::method", "src/jsonrpc/router.rs")],
     [("methods", "handlers by name", "src/jsonrpc/router.rs")],
     ["responses", "handler invocations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
