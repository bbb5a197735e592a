"""The harnesses that decide each property, their bounds and what they assume."""

ASSUMPTIONS = [
    "the LLVM IR of /repo, its dependencies and the harness (dev profile with optimisation level 2, panic=abort, overflow and debug "
    "assertions on, feature runtime-tokio) stands for the program; the optimisation passes of LLVM that produce it are trusted",
    "one thread: wake-ups and completions are interleaved between polls, not inside them",
    "hash values are replaced by a constant (every lookup collides), allocation never fails, no tracing subscriber is installed",
    "the executor's encoding of LLVM instructions and z3 are trusted; sampled paths are compared with native runs on every check",
]


def e(name, about, time=300, **kw):
    return (name, dict(time=time, about=about, **kw))


CHECKS = {}


def check(prop, bounds, quick, more=(), instead=None, **kw):
    """`more`: harnesses the thorough tier adds; `instead`: those it runs in place of the quick ones it names."""
    thorough = [(instead or {}).get(n, (n, o)) for n, o in quick] + list(more)
    CHECKS[prop] = dict(bounds=bounds, quick=quick, thorough=thorough, **kw)


def at(name, about, time=800, **kw):
    return e(name, about, time, **kw)


check(
    "C01", "any 2 frames of 6 kinds split at any 1 position, 3 frames read byte by byte or in pieces of any size up to their "
    "length, 2 frames split at any 2 positions, bodies of up to 20 000 bytes",
    [e("h_c01_a", "any two frames of six kinds, split anywhere", reach=[1]),
     e("h_c01_b", "three frames, a byte at a time", reach=[1]),
     e("h_c01_c", "three frames, every read size", reach=[1]),
     e("h_c01_d", "two frames, any two split points", reach=[1]),
     e("h_c01_e", "large bodies", reach=[1])],
    [at("h_c01_d_t", "any two frames of six kinds, any two split points", reach=[1])])
check(
    "C02", "bodies of up to 2 arbitrary bytes, templates with 1 arbitrary byte, truncated bodies, up to 4 arbitrary bytes "
    "between frames, up to 3 arbitrary bytes with any cut, malformed header blocks; thorough: 3, 2, 8 and 5 bytes",
    [e("h_c02_a", "bodies of up to two arbitrary bytes", reach=[1, 2, 3]),
     e("h_c02_b", "JSON-RPC messages with an arbitrary byte in any of several places", reach=[1, 2, 3]),
     e("h_c02_c", "messages cut short", reach=[1, 2]),
     e("h_c02_d", "arbitrary bytes where a frame is expected", reach=[1, 4]),
     e("h_c02_e", "the same in two pieces", reach=[1, 4]),
     e("h_c02_f", "malformed header blocks", reach=[1, 5]),
     e("h_c02_g", "input that ends within a frame", reach=[1]),
     e("h_c02_h", "lengths of every size and spelling", reach=[1, 6]),
     e("h_c02_i", "malformed messages while output is held back", reach=[1])],
    [at("h_c02_a_t", "bodies of three arbitrary bytes", reach=[1, 2, 3]),
     at("h_c02_b_t", "two arbitrary bytes in a message", reach=[1, 2, 3]),
     at("h_c02_d_t", "up to eight arbitrary bytes where a frame is expected", reach=[1, 4]),
     at("h_c02_e_t", "up to five in two pieces", reach=[1, 4])])
check(
    "C03", "messages with arbitrary characters, every write size, one stall at any byte (thorough: two); 2 rounds (thorough: 3) of up to 2 messages, each with a "
    "flush that may block",
    [e("h_c03_a", "responses of arbitrary content", reach=[1]),
     e("h_c03_b", "client requests and notifications of arbitrary content", reach=[1]),
     e("h_c03_c", "the output accepts any number of bytes per write and stalls anywhere", reach=[1]),
     e("h_c03_d", "several messages at a time with stalls", reach=[1]),
     e("h_c03_e", "flushing that blocks", reach=[1])],
    [at("h_c03_e_t", "one round more", reach=[1]),
     at("h_c03_c_t", "two stalls", reach=[1])])
def life(prop, bounds, rows, quick=(), more=(), skip=()):
    """Histories of the service: each row is run with one event more in the thorough tier."""
    check(prop, bounds, [e(n, a, reach=r) for n, a, r in rows] + list(quick), more,
          {n: at(n + "_t", a + ", one event more", reach=r) for n, a, r in rows if n not in skip})


life(
    "C04", "service level: every history of 3 (numeric, string and null ids), 4 (failing handlers and results), 5 and 6 events; whole "
    "server: every mix of 3 messages in every order of completion (thorough: 4); 3 messages of 4 kinds while output is held back",
    [("h_c04_a", "initialized service, numeric, string and null ids", [2, 4, 5, 7, 8]),
     ("h_c04_b", "initialized service, every order of polls and completions", [4, 5, 8]),
     ("h_c04_c", "from an uninitialized service", [2, 4, 5, 8]),
     ("h_c04_f", "handlers that fail and results that cannot be serialized", [4, 5, 7, 8, 12])],
    [e("h_c04_d", "the whole server, arbitrary ids and results", reach=[1]),
     e("h_c04_e", "the whole server while more output is waiting than the writer takes", reach=[1, 11])],
    [at("h_c04_d_t", "one message more", reach=[1])], skip=["h_c04_a"])
life(
    "C05", "every history of up to 4 or 5 events (thorough: 6), with every poll order",
    [("h_c05_a", "lifecycle histories from an uninitialized service", [2, 3, 4, 5, 8, 9]),
     ("h_c05_b", "the same with every order of polls", [2, 4, 5, 8]),
     ("h_c05_c", "from an initialized service, every order of polls", [2, 4, 5, 8])],
    [e("h_c05_d", "every method of the protocol in every phase", reach=[1, 2, 3])])
life(
    "C06", "every history of up to 5 events (thorough: 6)",
    [("h_c06_a", "initialize, shutdown, exit and cancellations", [2, 3, 4, 5, 7, 9]),
     ("h_c06_b", "the same with every order of polls", [2, 3, 4, 5, 9])])
life(
    "C07", "every history of 3 (numeric, string and null ids), 5 (every poll order) or 4 events (thorough: one more); every request "
    "of the protocol with any two 32-bit ids",
    [("h_c07_a", "numeric, one-character string and null ids", [4, 5, 7, 8]),
     ("h_c07_b", "every order of polls", [4, 5, 7, 8]),
     ("h_c07_c", "with notifications, failing handlers and shutdown", [4, 5, 7, 8])],
    [e("h_c07_d", "every request of the protocol, any two 32-bit ids", reach=[1])])
life(
    "C08", "every history of 3 (numeric, string and null ids) or 5 events (thorough: one more)",
    [("h_c08_a", "numeric, one-character string and null ids", [4, 5, 7, 8]),
     ("h_c08_b", "every order of polls", [4, 5, 7, 8]),
     ("h_c08_c", "with shutdown", [2, 4, 5, 7, 8])])
life(
    "C09", "service level: every history of 5 events (thorough: 6); whole server: up to 4 events before exit and up to 2 messages "
    "after it (thorough: 5)",
    [("h_c09_a", "exit in every phase", [2, 3, 4, 5, 8, 9]),
     ("h_c09_b", "exit with work in flight, every order of polls", [3, 4, 5, 7, 8, 9])],
    [e("h_c09_c", "the whole server, whatever input follows exit", reach=[1, 9])],
    [at("h_c09_c_t", "one event more", reach=[1, 9])])
life(
    "C22", "every history of 5 events (thorough: 6)",
    [("h_c22_a", "calls dropped in every phase", [2, 4, 5, 8, 10, 11]),
     ("h_c22_b", "with notifications, cancellations and exit", [3, 4, 5, 7, 8, 9, 10]),
     ("h_c22_c", "every order of polls", [4, 5, 7, 8, 10, 11])])
check(
    "C16", "limits 1 to 4, every history of 5 arrivals and completions (thorough: 7); 8 messages at once at limits 1 to 4 and 7",
    [e("h_c16_a", "requests and notifications arriving and completing in any order", reach=[1, 10]),
     e("h_c16_b", "strictly one after the other at level 1", reach=[1]),
     e("h_c16_c", "more messages at once than the limit", reach=[1])],
    [at("h_c16_a_t", "every history of 7 events", reach=[1, 10])])
check(
    "C17", "levels 1 and 2, a request or notification handler that asks among 3 other messages of 6 kinds (thorough: 4); 3 handlers that ask "
    "at every level up to 3 (thorough: 4) in front of 12 queued messages, answered in every order",
    [e("h_c17_a", "handlers that ask the client and wait, with other traffic", reach=[1, 11]),
     e("h_c17_b", "handlers that send many messages while the output stalls", reach=[1])],
    [at("h_c17_a_t", "longer histories", reach=[1, 11]), at("h_c17_b_t", "more messages", reach=[1])])
check(
    "C20", "up to 2 messages of 4 kinds (thorough: 3) at levels 2 to 4, input ending between or within frames, handlers finishing in every "
    "order, output held back after 0, 10 or 60 bytes; 3 messages while 9 000 bytes of output are waiting at levels 1 to 3",
    [e("h_c20_a", "input that ends at any point of any history", reach=[1, 11]),
     e("h_c20_b", "input that ends while more output is waiting than the writer takes", reach=[1, 11])],
    [at("h_c20_a_t", "longer histories", reach=[1, 11])])

check(
    "C21", "sessions of up to 2 messages (thorough: 3) of 6 kinds at levels 1 and 2; reading fails at the end, or writing fails, is "
    "refused, or flushing or closing fails, at the start or after 1, 21, 70 or 130 bytes more",
    [e("h_c21_a", "sessions in which reading or writing fails", reach=[1, 2, 3])],
    [at("h_c21_a_t", "one message more", reach=[1, 2, 3])])
check(
    "C10", "2 requests and 5 events (thorough: 3 and 6), 4 requests in flight (thorough: 5) with every order of answers, any numeric, "
    "string or null id in a response, every history of 4 uses of the id counter; 3 requests and 8 events (thorough: 10) with callers polled at "
    "any time; one run of 70 000 requests",
    [e("h_c10_a", "requests, answers of any id, kind and shape, abandoned callers", reach=[1, 2, 3, 4, 5, 6, 7]),
     e("h_c10_b", "several requests in flight, answered in any order", reach=[1]),
     e("h_c10_c", "ids stay distinct whichever clone and call uses them", reach=[1]),
     e("h_c10_d", "callers that are polled late, answered early, dropped or polled again", reach=[1, 2, 3, 6]),
     e("h_c10_e", "ids stay distinct over 70 000 requests", reach=[1])],
    [at("h_c10_d_t", "more events", reach=[1, 2, 3, 6]),
     at("h_c10_a_t", "one event more", reach=[1, 2, 3, 4, 5, 6, 7]),
     at("h_c10_b_t", "one request more in flight", reach=[1])])
check(
    "C11", "every client call in every phase",
    [e("h_c11_a", "the calls the lifecycle gates", reach=[1, 2, 3, 4, 5]),
     e("h_c11_b", "the calls it does not gate, followed by one it does", reach=[1, 2, 3, 4, 5]),
     e("h_c11_c", "calls made while initialize is in progress and around exit", reach=[1])])
check(
    "C18", "one report (thorough: two), strings of up to one arbitrary character; two progresses at a time",
    [e("h_c18_a", "every kind of progress", reach=[1, 2, 3]),
     e("h_c18_b", "two progresses whose messages interleave", reach=[1])],
    [at("h_c18_a_t", "two reports", reach=[1, 2, 3])])
check(
    "C19", "every client call with symbolic arguments and answers; two calls in a row",
    [e("h_c19_a", "every client call", reach=[1]),
     e("h_c19_b", "two calls one after the other", reach=[1])])

check(
    "C12", "all 64-bit ids and error codes in values; in text ids, codes and numbers of -256 to 255 and the largest and smallest "
    "64-bit numbers; strings of up to 2 ASCII characters or one longer character; every combination of members in an object",
    [e("h_c12_a", "requests through values", reach=[1, 2, 3]),
     e("h_c12_a2", "requests through text", reach=[1, 2, 3]),
     e("h_c12_b", "responses and errors through values", reach=[1, 2, 4]),
     e("h_c12_b2", "responses and errors through text", reach=[1, 2, 4]),
     e("h_c12_c", "every 64-bit error code", reach=[1, 2]),
     e("h_c12_d", "equality, hashing and conversion of ids", reach=[1, 2, 3]),
     e("h_c12_e", "classification of incoming objects", reach=[1, 2, 3, 4])],
    [at("h_c12_e_t", "three orders of the members, unknown members", reach=[1, 2, 3, 4])])

check(
    "C13", "any UTF-8 name of up to 4 bytes (thorough: 8), alone or behind \"$/\", \"t/\" or \"workspace/\", in three phases; every "
    "known name with one byte changed, removed or added, or cut anywhere",
    [e("h_c13_a", "short names and those with a known beginning", reach=[1, 2, 3, 4]),
     e("h_c13_b", "changes to some known names", reach=[1, 2, 3]),
     e("h_c13_b_t", "changes to every known name", reach=[1, 2, 3])],
    [at("h_c13_a_t", "longer names", reach=[1, 2, 3, 4])])
check(
    "C14", "all methods of the protocol and 7 shapes of custom methods, with absent, null, boolean, number, string, array and object params",
    [e("h_c14_a", "every method with params of every wrong kind, with and without id", reach=[1, 2, 3, 4]),
     e("h_c14_b", "custom methods of every shape", reach=[1, 2, 3, 4, 5]),
     e("h_c14_c", "malformed initialize, shutdown and cancellations", reach=[1, 2, 3])])
check(
    "C15", "all methods of the protocol, each with one shape of params and result with arbitrary contents; every two in a row",
    [e("h_c15_a", "every method with its params, result and error", reach=[1, 2]),
     e("h_c15_b", "initialize", reach=[1]),
     e("h_c15_c", "every two methods in a row", reach=[1]),
     e("h_c15_d", "the default implementations", reach=[1, 2, 3])])

check(
    "C23", "the bounds of the harnesses named here as given for C01 to C04, C09, C16, C17, C20 and C21; flushing does not block except in "
    "h_c23_a (a known finding) and h_c23_b (2 flushes that block, then one that does not)",
    [e(n, "runtime-agnostic build: " + a, reach=r) for n, a, r in [
        ("h_c01_a", "any two frames of six kinds, split anywhere", [1]),
        ("h_c02_f", "malformed header blocks", [1, 5]),
        ("h_c02_g", "input that ends within a frame", [1]),
        ("h_c02_i", "malformed messages while output is held back", [1]),
        ("h_c03_b", "messages of arbitrary content written in pieces", [1]),
        ("h_c03_c", "output that accepts any number of bytes and stalls", [1]),
        ("h_c03_d", "bodies of many lengths", [1]),
        ("h_c04_d", "messages finishing in any order", [1]),
        ("h_c09_c", "exit and input after it", [1, 9]),
        ("h_c16_a", "the concurrency limit", [1, 10]),
        ("h_c17_a", "handlers that ask the client", [1, 11]),
        ("h_c20_a", "input that ends at any point", [1, 11]),
        ("h_c21_a", "I/O errors", [1, 2, 3]),
        ("h_c23_a", "a flush that blocks", []),
        ("h_c23_b", "output after flushes that blocked", [1])]],
    [at(n, "runtime-agnostic build: " + a, reach=r) for n, a, r in [
        ("h_c01_d", "two split points", [1]),
        ("h_c02_e", "arbitrary bytes where a frame is expected", [1, 4]),
        ("h_c04_e", "more output than the writer takes", [1, 11]),
        ("h_c16_c", "more messages than the limit", [1]),
        ("h_c17_b", "handlers that send many messages", [1]),
        ("h_c20_b", "more output than the writer takes", [1, 11])]],
    variant="agnostic",
    assumptions=["the feature runtime-agnostic takes the place of runtime-tokio"])
check(
    "C24", "every history of 4 (thorough: 5) messages, readiness changes, completions, client messages and socket changes at levels 1 and 2",
    [e("h_c24_a", "any service and any client socket", reach=[1, 2, 3, 4])],
    [], {"h_c24_a": at("h_c24_a_t", "one event more", reach=[1, 2, 3, 4])})
check(
    "C25", "3 custom methods, each named by any UTF-8 string of up to 2 bytes (thorough: 3) or by one of 6 names of the protocol; "
    "one message of any such name in 3 phases, any 32-bit id and params",
    [e("h_c25_a", "custom methods of any name", reach=[1, 2, 3, 4, 5, 6, 7])],
    [], {"h_c25_a": at("h_c25_a_t", "longer names", reach=[1, 2, 3, 4, 5, 6, 7])})

NOT_APPLICABLE = {}
