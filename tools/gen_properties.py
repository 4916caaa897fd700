#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(obs), hook_needed=None)))

p("C01", "Framed messages survive any transport chunking byte for byte",
  "Any sequence of non-empty payloads (of any bytes) written as framed messages is read back as exactly that sequence of payloads, however the transport splits or coalesces the bytes. "
  "A message is delivered only once its complete declared length has arrived; a message truncated by the end of the stream is never delivered, in whole or in part.",
  ["inputs", "histories"], "all payload sequences, all ways the underlying reader may answer each read (1..n bytes, end of stream at any byte)",
  "tests read three fixed payloads whole, or one byte at a time; no other split, payload content, size around the internal chunk size or truncation point is tried",
  ["src/content_stream.cpp", "src/content_stream.h", "src/string_buffer.h"],
  [("header emission with byte count", "src/content_stream.cpp ContentWriter::write"), ("buffered matching that tolerates short reads", "src/content_stream.cpp ContentReader::read/buffer/match")],
  [("buf", "bytes received and not yet consumed", "src/content_stream.h")], ["ContentReader::read", "Writer::write calls of ContentWriter"])

p("C02", "Invalid stream data is skipped or closes the reader, as configured",
  "With the ignore policy, bytes that are not part of a well-formed frame are skipped and every later well-formed frame is still delivered intact. "
  "With the close policy, the first bytes that do not form a frame header (wrong prefix, missing, zero or unrepresentable length, wrong terminator) close the underlying reader and nothing is delivered from them or after them. "
  "In both modes reading terminates, and once the transport reports its end the message reader no longer reports itself open.",
  ["inputs", "configurations"], "all interleavings of garbage, near-miss headers, partial headers and frames up to a bound; both policies; all read splits",
  "tests use two garbage strings and one HTTP request; near-miss headers, resynchronisation inside a header, embedded NULs, overlong lengths and end of stream are not tried",
  ["src/content_stream.cpp", "src/content_stream.h", "include/dap/session.h"],
  [("scan for prefix / match at cursor", "src/content_stream.cpp ContentReader::scan, match"), ("bad header handling", "src/content_stream.cpp ContentReader::badHeader")],
  [("on_invalid_data", "policy", "src/content_stream.h")], ["ContentReader::read", "Reader::close", "ContentReader::isOpen"])

p("C03", "Outgoing messages are whole, unique and in each sender's order",
  "When any number of threads send requests, events and responses through one session at the same time, the bytes written to the endpoint are a sequence of complete, well-formed frames: every message sent appears exactly once, never interleaved with another, and messages sent by one thread appear in the order it sent them. "
  "The sequence numbers of a session's outgoing messages are all different, and a send reports failure (an error outcome for a request) whenever the endpoint refused the bytes or is closed.",
  ["schedules", "fault_sequences"], "all interleavings (up to the preemption bound) of 2-3 sending threads plus the dispatch thread; every failing write position",
  "the Concurrency test runs 32 threads on whatever schedules the OS produces and never looks at the wire",
  ["src/session.cpp", "src/content_stream.cpp", "include/dap/session.h"],
  [("send lock around header+body", "src/session.cpp Impl::send(const std::string&)"), ("atomic sequence counter", "src/session.cpp nextSeq")],
  [("nextSeq", "next outgoing sequence number", "src/session.cpp"), ("sendMutex", "serialises writers", "src/session.cpp")], ["Writer::write", "Session::send"])

p("C04", "Every request gets exactly one outcome: its own response, or an error",
  "The future returned for a request is given exactly one outcome, and a response that arrives decides only the request whose sequence number it names, whatever the order of responses and whichever threads sent the requests, including a response that arrives before the send call returns. "
  "Responses naming no outstanding request (unknown or already answered) change no outcome and are reported as protocol errors. "
  "If the request cannot be sent, the response is a failure (with or without a message) or malformed, or the session ends before it is answered, the outcome is an error rather than an endless wait.",
  ["schedules", "histories", "fault_sequences"], "all response orders, duplicates, unknown sequence numbers and failure shapes for 2-3 outstanding requests from 1-2 threads, all interleavings up to the preemption bound, session end at every point",
  "tests have one outstanding request whose future is read after the fact; no reordering, duplication, loss, early arrival or shutdown",
  ["src/session.cpp", "include/dap/session.h", "include/dap/future.h"],
  [("response handler registered before the bytes leave", "src/session.cpp Impl::send"), ("handler removed when taken", "src/session.cpp EventHandlers::response"), ("outstanding requests failed at end", "src/session.cpp recvThread / ~Impl")],
  [("responseMap", "outstanding requests by sequence number", "src/session.cpp")], ["future::get", "Session::onError"])

p("C05", "Requests, responses, errors and events arrive unchanged end to end",
  "A request or event sent by one session reaches the handler registered by its peer with every field equal to what was sent, and the handler's result reaches the requester unchanged: the same response fields on success, the complete error message on failure. "
  "This holds for every handler style (returning a response, an error or either; calling back immediately or after the handler returned, from any thread) and every response carries the sequence number and command of its request.",
  ["inputs", "schedules", "configurations"], "all combinations of handler style x outcome x value alphabet (long, empty, NUL and non-ASCII strings, extreme integers), with the deferred callback on another thread in every interleaving; all three JSON back ends",
  "one fixed value set per message; error messages of one short text",
  ["include/dap/session.h", "src/session.cpp"],
  [("typed handler adapters", "include/dap/session.h registerHandler"), ("response construction", "src/session.cpp Impl::processRequest"), ("response decoding", "src/session.cpp Impl::processResponse")],
  [], ["handlers", "future::get", "bytes on the wire"])

p("C06", "Incoming requests and events are handled once each, one by one, in order",
  "With message processing started, every accepted request and event is passed to its handler exactly once, in the order the messages arrived, and never two at the same time, while responses keep being delivered even if a handler is blocked waiting for one. "
  "Messages that arrived before the connection closed are still handled if the session stays alive.",
  ["schedules", "histories"], "all interleavings (up to the preemption bound) of transport, receive and dispatch threads for 2-3 messages of mixed kinds, including a handler that sends a request and waits for its response",
  "tests send one message at a time or only count events; order and mutual exclusion are not observed",
  ["src/session.cpp", "src/chan.h"],
  [("receive thread -> queue -> dispatch thread", "src/session.cpp startProcessingMessages"), ("responses handled on the receive thread", "src/session.cpp processResponse")],
  [("inbox", "accepted messages not yet handled", "src/session.cpp")], ["handlers"])

p("C07", "No incoming bytes can crash, wedge or corrupt a session",
  "Whatever a peer sends - invalid JSON, JSON of the wrong shape, missing or wrongly typed members, unknown message kinds, values out of range - the process does not crash, abort, hang, leak or access memory wrongly, with any of the supported JSON libraries. "
  "Each malformed message is reported to the error handler and has no other effect, and well-formed messages that follow it are handled as usual.",
  ["inputs", "configurations"], "all messages of a grammar of envelopes and bodies in which every member is absent, null, of each wrong JSON type, or out of range (one and two deviations from a valid message), each followed by a valid message; three JSON back ends; ASan+UBSan",
  "unit tests never feed malformed JSON; the fuzzer samples one back end, is not run, and has no oracle",
  ["src/session.cpp", "src/nlohmann_json_serializer.cpp", "src/rapid_json_serializer.cpp", "src/jsoncpp_json_serializer.cpp", "src/null_json_serializer.h", "include/dap/serialization.h"],
  [("type-checked deserialisers", "src/*_json_serializer.cpp"), ("error reports", "src/session.cpp processMessage...")],
  [], ["process exit", "Session::onError", "handlers"])

p("C08", "A message reaches its handler exactly when it is valid for its type",
  "An incoming request or event is handed to the handler registered for its name if its envelope is complete and all required members are present with the right type; otherwise no handler runs and an error is reported. "
  "Omitted optional members, including a wholly omitted arguments or body object when nothing in it is required, leave the corresponding fields unset, and unknown extra members are ignored.",
  ["inputs", "configurations"], "all one- and two-member deviations from valid messages for request, event and response types with required, optional, nested and no members; three JSON back ends",
  "tests only exchange complete messages produced by the library itself",
  ["src/session.cpp", "include/dap/serialization.h", "include/dap/typeof.h", "src/null_json_serializer.h"],
  [("envelope checks", "src/session.cpp processMessage/processRequest/processEvent"), ("required vs optional members", "include/dap/serialization.h Deserializer::deserialize(optional<T>*)")],
  [], ["handlers", "Session::onError"])

p("C09", "A session can end at any moment without hanging, leaking or late calls",
  "Destroying a session (pipe or socket endpoint) at any moment - idle, mid-message, with messages queued, while a handler runs or while the peer closes - returns, provided the user's handlers return, and afterwards no handler or callback of that session runs and all memory of undelivered messages has been released. "
  "When the endpoint closes or reaches its end, the close callback is called exactly once, after which no message is received.",
  ["schedules", "crash_points"], "destruction, peer close and end of stream at every point of 1-3 message exchanges, all interleavings up to the preemption bound",
  "two tests wait for the close callback in an idle session; nothing destroys a busy session under observation",
  ["src/session.cpp", "src/chan.h", "src/io.cpp", "src/content_stream.cpp"],
  [("close then join both threads", "src/session.cpp ~Impl"), ("queue closed and drained", "src/chan.h")],
  [("recvThread, dispatchThread", "the session's threads", "src/session.cpp")], ["~Session", "ClosedHandler", "allocations"])

p("C10", "Concurrent use of the public session API is free of data races",
  "Calls of send, registerHandler, registerSentHandler and onError on one session from several threads, concurrently with message receipt and dispatch, have no data races or deadlocks, and each takes effect as if executed alone at some moment. "
  "Separate sessions, and serialisation or first use of message types on separate threads, do not interfere with each other.",
  ["schedules"], "all pairs of API operations on 2-3 threads against an active session, all interleavings up to the preemption bound, with happens-before race detection on every memory access of the library",
  "no test mutates handlers while messages flow and the thread sanitizer is not part of the test run",
  ["src/session.cpp", "src/typeof.cpp", "src/io.cpp", "src/content_stream.cpp"],
  [("per-table locks", "src/session.cpp EventHandlers"), ("errorMutex", "src/session.cpp")],
  [("requestMap, eventMap, responseMap, responseSentMap, errorHandler", "handler tables", "src/session.cpp")], ["memory accesses", "handlers"])

p("C11", "The response-sent notification follows its response, exactly once",
  "For every response a session sends, the response-sent handler registered for that response type is called exactly once, after the complete response has been handed to the endpoint, with the very response or error that was sent; it is not called for other types or for requests that were not answered. "
  "A response callback kept by a handler may be invoked after the handler returned, from any thread and in any order relative to other requests, and answers exactly its own request.",
  ["schedules", "histories"], "all orders of answering 2-3 pending requests inline or deferred on another thread, success or error, with and without a sent handler; interleavings up to the preemption bound",
  "tests answer a single request and do not relate the notification to the wire",
  ["src/session.cpp", "include/dap/session.h"],
  [("send then notify", "src/session.cpp processRequest"), ("per-request captured sequence and command", "src/session.cpp processRequest")],
  [("responseSentMap", "sent handlers by response type", "src/session.cpp")], ["registerSentHandler callbacks", "Writer::write"])

p("C12", "The in-memory pipe is a lossless ordered byte stream with prompt close",
  "Bytes written to a pipe are read exactly once, in order, each write contiguous with respect to other writes. "
  "A read returns at most the bytes asked for, as soon as at least one is available, and blocks otherwise; closing from any thread wakes every blocked reader, makes the pipe report closed, makes later writes fail and lets no reader wait again.",
  ["schedules", "histories"], "all interleavings of 2-4 threads performing up to 6 read/write/close/isOpen operations with 0..3 byte buffers; spurious wakeups",
  "pipes are only used indirectly by session tests with one reader and one writer",
  ["src/io.cpp", "include/dap/io.h"],
  [("mutex + condition variable around a byte queue", "src/io.cpp Pipe")], [("data, closed", "buffered bytes, closed flag", "src/io.cpp")], ["Reader::read", "Writer::write", "isOpen"])

p("C13", "The message queue hands over every item once, in order, and closes cleanly",
  "Items put into the queue by any threads are taken exactly once each and in put order (per producer and, with one consumer, overall). "
  "A take blocks while the queue is open and empty and never stays blocked once an item or close is available to it; after close, remaining items are still returned and then every take returns empty at once; reset makes the queue empty and open again.",
  ["schedules", "histories"], "all interleavings of up to 4 threads and 7 put/take/close/reset operations; spurious wakeups",
  "one test with one producer and one consumer on one OS schedule",
  ["src/chan.h"], [("notify on empty to non-empty, and on close", "src/chan.h")], [("queue, closed", "content, closed flag", "src/chan.h")], ["Chan::take", "Chan::put", "Chan::close", "Chan::reset"])

p("C14", "The reader/writer lock excludes properly and never strands a waiter",
  "At no time is the lock held by a writer together with any other holder, while any number of readers may hold it together. "
  "A thread waiting for the lock acquires it once the conflicting holders have released it - no wakeup is lost - and the scoped lock objects release exactly what they acquired, including when moved or assigned.",
  ["schedules", "histories"], "all interleavings of up to 4 threads with 1-2 lock/unlock rounds each; all move/assign sequences of scoped locks up to depth 4",
  "two stress tests on the OS's schedules; moves and assignments of scoped locks are untested",
  ["src/rwmutex.h"], [("reader count + pending writers + condition variable", "src/rwmutex.h")], [("readLocks, pendingWriteLocks", "holders and waiters", "src/rwmutex.h")], ["lockReader/lockWriter/unlock*", "RLock", "WLock"])

p("C15", "A future yields the promised value to every waiter, and only then",
  "Once a promise is set, every past and future get, wait, wait_for and wait_until on its future returns with that value, on every thread; before that none of them reports it ready. "
  "A timed wait returns ready if the value was set in time and timeout otherwise, without blocking beyond the timeout, and the shared state outlives whichever of promise and future dies first.",
  ["schedules"], "all interleavings of one setter and 1-3 waiters of every kind, with timeouts and spurious wakeups at every point, destruction of either side first",
  "futures are only exercised through session tests that call get once",
  ["include/dap/future.h"], [("flag and value under one lock, notify_all", "include/dap/future.h promise::set_value")], [("val, hasVal", "shared state", "include/dap/future.h")], ["future::get/wait/wait_for/wait_until", "promise::set_value"])

p("C16", "The any container behaves like a value of whatever type it holds",
  "After any sequence of constructions, copies, moves, assignments (including self-assignment and assignment between differently typed contents), resets and destructions, an any holds exactly the type and value most recently given to it, copies are independent, and a moved-to any holds what its source held. "
  "Every contained value is constructed and destroyed exactly once, at a suitably aligned address, and no memory is leaked, freed twice or used after being freed.",
  ["histories", "inputs"], "all operation sequences up to depth 4-6 over 2-3 any objects and a type alphabet of null, small and large, trivially and non-trivially copyable, over-aligned and instrumented types",
  "tests run single assignments or one move and never reuse the moved-from object",
  ["include/dap/any.h", "src/typeof.cpp"], [("in-place buffer or heap block with ownership", "include/dap/any.h")], [("value, type, heap, buffer", "contents", "include/dap/any.h")], ["any::is", "any::get", "construct/destruct counts", "ASan"])

p("C17", "variant and optional hold what they were given, and only legal contents",
  "A variant always holds a value of exactly one of its alternatives (initially the first, default-constructed), also after being decoded from JSON: input of no alternative's type is refused. "
  "An optional reports a value if and only if one was last assigned, yields exactly that value (or the supplied default), copies and converts faithfully, and its comparison operators agree with those of the underlying values with 'unset' ordered first.",
  ["histories", "inputs"], "all operation sequences up to depth 4-5 over 2 variants / 2 optionals and their value alphabets; all JSON kinds into each variant type; all pairs for comparison",
  "tests check isolated assignments; decoding into variants is untested",
  ["include/dap/variant.h", "include/dap/optional.h", "include/dap/serialization.h"], [("any-backed storage", "include/dap/variant.h"), ("value + set flag", "include/dap/optional.h")], [], ["is/get/has_value/value/operators"])

p("C18", "Any value survives JSON encoding and decoding, in every back end",
  "Every boolean, 64-bit integer, finite number, valid UTF-8 string (including NUL and control characters), array, object, optional and nested combination decodes from its own encoding to an equal value of the same type, and the encoded text is valid JSON that all supported JSON libraries decode to the same value; JSON text written by another program (white space, escapes, any member order, integers where numbers are expected) decodes to the value it denotes. "
  "Encoding never crashes or aborts, even for strings that are not valid UTF-8, and a serialiser used again holds only the last value given.",
  ["inputs", "configurations"], "all values of a grammar up to nesting depth 3 over boundary scalars; all ordered pairs of back ends; all pairs of consecutive values in one serialiser",
  "each back end is tested with one object of small values, against itself",
  ["src/nlohmann_json_serializer.cpp", "src/rapid_json_serializer.cpp", "src/jsoncpp_json_serializer.cpp", "include/dap/serialization.h", "include/dap/types.h"],
  [("per-type serialise/deserialise", "src/*_json_serializer.cpp")], [], ["Serializer::dump", "Deserializer::deserialize"])

p("C19", "Every protocol message type maps faithfully to its DAP wire form",
  "For every request, response, event and structure type of the protocol, each field is encoded under its DAP member name with its value, unset optional fields are omitted, and decoding restores every field and only that field. A type that extends another carries the members of all its bases. "
  "Decoding fails if and only if a required member is missing or has the wrong type; message names match the DAP specification and no two fields or messages of one kind share a name.",
  ["inputs", "configurations"], "every type (all requests, responses, events and structs), every single field and every pair of fields set/unset/wrongly typed, nested to depth 3; three JSON back ends",
  "only a handful of the 130+ types is ever encoded in a test, with few of their fields",
  ["include/dap/protocol.h", "src/protocol_types.cpp", "src/protocol_requests.cpp", "src/protocol_response.cpp", "src/protocol_events.cpp", "include/dap/typeof.h"],
  [("field tables (name, offset, type)", "src/protocol_*.cpp DAP_IMPLEMENT_STRUCT_TYPEINFO"), ("generic field loops", "include/dap/typeof.h")], [], ["TypeInfo::serialize/deserialize/name"])

p("C20", "The type registry is safe under concurrent first use and paired init/terminate",
  "The first uses of any message or container types on several threads at once, together with paired initialize/terminate calls in any order and nesting, yield one valid, stable description per type, the same on every thread. "
  "Descriptions stay valid until the last terminate and process exit, and every one is released exactly once.",
  ["schedules", "histories"], "all interleavings up to the preemption bound of 2-3 threads first-using overlapping and distinct types and pairing initialize/terminate, each in a fresh process; race detection on every access",
  "the multi-threaded test only pairs initialize/terminate after the registry exists, on OS schedules",
  ["src/typeof.cpp", "include/dap/typeof.h", "include/dap/typeinfo.h", "include/dap/dap.h"], [("reference count and owned list", "src/typeof.cpp TypeInfos")], [("refcount, types", "lifetime and ownership of descriptions", "src/typeof.cpp")], ["TypeOf<T>::type()", "allocations at exit", "memory accesses"])

p("C21", "A socket stream delivers bytes intact and closes safely from any thread",
  "Bytes written to a connected socket stream arrive once, in order and completely whenever write reports success, even if the operating system accepts them piecemeal; if they cannot all be sent, write reports failure and the process survives (no fatal signal). "
  "close may be called from any thread at any time: it unblocks waiting reads, writes and accepts, makes the stream report closed and later operations fail, and the descriptor is closed exactly once and never used after it was closed.",
  ["schedules", "fault_sequences"], "all interleavings up to the preemption bound of reader, writer and 1-2 closers over a simulated TCP stack; every short send/recv, error or reset at every call; simulated stack validated against the real loopback",
  "three tests on the real loopback, one schedule each, no partial sends, resets or concurrent closes",
  ["src/socket.cpp", "src/socket.h", "src/rwmutex.h"], [("reader/writer lock around the descriptor", "src/socket.cpp Shared"), ("shutdown then close", "src/socket.cpp Shared::close")], [("s", "descriptor", "src/socket.cpp")], ["system calls", "Reader::read", "Writer::write", "isOpen"])

p("C22", "A server delivers every connection once and can be stopped and restarted",
  "While a server is started, each client connection it accepts is passed to the connect callback exactly once; start reports failure (and calls the error callback) if it cannot listen, without hanging. "
  "stop (and destruction, and starting again) returns even while waiting for connections, after which no callback of that run is called, no error is reported for the stop itself and the port is free again; stop is idempotent and may race with arriving connections.",
  ["schedules", "histories", "fault_sequences"], "all start/stop/connect/destroy sequences up to depth 5 and all interleavings up to the preemption bound of the accept thread, clients and 1-2 controlling threads over a simulated TCP stack with failing calls",
  "two tests: sequential connections and one stop/restart sequence on one OS schedule; failure to listen is untested",
  ["src/network.cpp", "src/socket.cpp", "include/dap/network.h"], [("stopped flag, close, join", "src/network.cpp"), ("bind/listen/accept", "src/socket.cpp")], [("stopped, socket, thread", "server run", "src/network.cpp")], ["OnConnect", "OnError", "start's result", "system calls"])

p("C23", "Connecting yields a usable stream in time, or nothing",
  "connect returns a stream that is open, connected and in blocking mode, or nothing if the address cannot be resolved, the peer refuses, a system call fails or the given time passes; with a timeout it never waits longer than that time and with zero it waits for the outcome. "
  "On every failure all descriptors and resolver results are released exactly once.",
  ["fault_sequences", "inputs"], "every outcome of every system call of a connect (success, in progress then success/error/timeout, error), all timeouts of an alphabet including the largest, over a simulated TCP stack validated against the real loopback",
  "tests check one success path and one timeout",
  ["src/socket.cpp", "src/network.cpp"], [("non-blocking connect + select", "src/socket.cpp Socket::connect")], [], ["connect's result", "system calls"])

p("C24", "Stream adapters pass data, results and closing through unchanged",
  "A combined reader/writer, a spied reader or writer, a file stream and formatted writing transfer exactly the bytes of the stream they wrap and report exactly its results; a spy receives a copy of precisely the bytes transferred, each prefixed, and a failing spy does not disturb the stream. "
  "A file stream returns what the file holds, reports short reads at end of file, makes written bytes visible at once, refuses operations after it was closed, and closes its file exactly once and only if it is closable.",
  ["histories", "fault_sequences"], "all operation sequences up to depth 4-5 over each adapter with every result of the wrapped stream (short, zero, failure, closed)",
  "no unit test covers files, spies, the combined stream or writef",
  ["src/io.cpp", "include/dap/io.h"], [("delegation", "src/io.cpp RW, File, ReaderSpy, WriterSpy, writef")], [], ["read/write/isOpen/close results", "bytes in wrapped and spy streams"])

p("C25", "Handlers and connections are registered once, and misuse is reported",
  "The first handler registered for a message type stays in force: a second registration for the same type is refused and reported, and the error handler in force is always the one set last. "
  "A second connect or second start of message processing is reported and changes nothing, and sending on an unconnected session fails with an error outcome and a report; a message for which no handler is registered is reported and runs no handler.",
  ["histories"], "all sequences up to depth 5 of register (request/event/sent), onError, connect, bind, start, send and incoming message operations against a reference model",
  "tests register each handler once and never repeat connect or start",
  ["src/session.cpp", "include/dap/session.h"], [("emplace-if-absent", "src/session.cpp EventHandlers::put"), ("isBound / isProcessingMessages", "src/session.cpp")], [], ["handlers", "Session::onError", "Session::send"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
