"""Which programs decide which property."""


def mc(name, sources, backend="nlohmann", libset="core", **kw):
    return dict(name=name, engine="mc", sources=sources, backend=backend, libset=libset, **kw)


def seq(name, sources, backend="nlohmann", libset="core", **kw):
    return dict(name=name, engine="seq", sources=sources, backend=backend, libset=libset, **kw)


_SC = ("Sequentially consistent memory; scheduling points at synchronisation operations, unsynchronised accesses "
       "reported as races; bounds and completed preemption bound in the evidence file.")

_CONTENT = dict(libset=["content_stream.cpp"])

PROPS = {
    "C01": dict(programs=[seq("content", ["content.cpp"], only="frames_", **_CONTENT)],
                note="All sequences of 1-3 payloads of 13 kinds x 8 chunk sizes x every position of 1 (quick) or 3 additional short reads; every truncation point of 1-2 frames."),
    "C02": dict(programs=[seq("content", ["content.cpp"], only="invalid_", **_CONTENT)],
                note="All sequences of up to 3 (quick) or 4 of 27 valid and invalid tokens, every single (quick) or double (thorough) byte corruption of a stream, all header tails of up to 5 (7) bytes, both policies, closable and not, against a reference decoder."),
    "C16": dict(programs=[seq("anyval", ["anyval.cpp"], libset=["typeof.cpp", "typeinfo.cpp"])],
                note="All histories of 4 (quick) or 5 operations on 2 and 4 on 3 any objects, of 11 operations and 27 kinds of contents (up to 70000 bytes and 256-byte alignment), against a reference model, with a registry of live contents, ASan and UBSan."),
    "C12": dict(programs=[mc("pipe", ["pipe.cpp"])],
                note="All schedules of 2-4 threads on one pipe within the preemption bound, all histories of 5 (quick) or 7 operations. " + _SC),
    "C13": dict(programs=[mc("chan", ["chan.cpp"], libset="none")],
                note="All schedules of 1-2 producers, 1-2 consumers, close and reset within the preemption bound, all histories of 5 (quick) or 8 operations. " + _SC),
    "C14": dict(programs=[mc("rwmutex", ["rwmutex.cpp"], libset="none")],
                note="All schedules of up to 4 readers and writers within the preemption bound, all lock-object histories of 4 (quick) or 6 operations. " + _SC),
    "C15": dict(programs=[mc("future", ["future.cpp"], libset="none")],
                note="All schedules of a setter and two waiters of every kind, with spurious wakeups and timeouts as deviations, in virtual time. " + _SC),
}
NOT_APPLICABLE = {}
_P = PROPS
_P["C03"] = dict(programs=[mc("sess_send", ["sess_send.cpp"], only="c03_")], note='All schedules of 2-3 sending threads (events, requests, responses, large messages), a closing thread and the dispatcher within the preemption bound; every position of a refused write; all histories of 4-5 sends of every kind; the written bytes are parsed by an independent parser. ' + _SC)
_P["C04"] = dict(programs=[mc("sess_send", ["sess_send.cpp"], only="c04_")], note='All schedules of two requesters, the receiver, and a scripted peer that answers in either order, with every kind of answer, early, twice, or not at all, with every way the connection can end; thousands of outstanding requests; near-miss sequence numbers; messages that cannot be encoded. ' + _SC)
_P["C05"] = dict(programs=[mc("sess_e2e", ["sess_e2e.cpp"], only="c05_")], note='7 handler styles x outcomes x payloads x error texts between two sessions, pumped and under all schedules within the bound; both directions at once; every number and command of a request; all copy/move histories of an outcome; sessions over simulated sockets with split and interrupted transfers. ' + _SC)
_P["C11"] = dict(programs=[mc("sess_e2e", ["sess_e2e.cpp"], only="c11_")], note='All schedules of kept callbacks answered by other threads in any order, all answer x registration combinations, all histories of 4-5 requests answered, failed, refused or dropped, against a model; up to 130 types on one session. ' + _SC)
_P["C06"] = dict(programs=[mc("sess_recv", ["sess_recv.cpp"], only="c06_")], note='All sequences of 3 of 4 message kinds x ways of splitting the bytes, all schedules of receiver, dispatcher and peer within the bound, handlers blocked on a response or a gate, end of the stream at every moment, long backlogs. ' + _SC)
_P["C09"] = dict(programs=[mc("sess_recv", ["sess_recv.cpp"], only="c09_")], note="All schedules within the bound of a destruction racing with receipt, handling (of a handler that sends), the peer's end of every kind, on scripted, pipe and (simulated) socket endpoints; leaks, late calls and missing or repeated close callbacks are checked on each. " + _SC)
_P["C10"] = dict(programs=[mc("sess_misc", ["sess_misc.cpp"], only="c10_")], note='All pairs of public calls on two threads with receipt and dispatch, handler registration under traffic, replaced error handlers, separate sessions with cold type registries, all schedules within the bound; per-byte vector-clock race detection on each. ' + _SC)
_P["C25"] = dict(programs=[mc("sess_misc", ["sess_misc.cpp"], only="c25_")], note='All histories of 4-5 (quick) registrations, misuses and messages against a model; up to 130 types with handlers on one session; all schedules of racing connects, starts and registrations within the bound. ' + _SC)
_B3 = ("nlohmann", "rapid", "jsoncpp")
_P["C07"] = dict(programs=[seq("recv", ["recv.cpp"], backend=b, only="c07_") for b in _B3], note='For each of the three JSON back ends: every 1-byte truncation, removal, substitution and insertion in 8 messages, every node replaced, removed, renamed or repeated, all token sequences of length 4-5, nesting to 100000, numbers and strings at and beyond every limit, garbage streams in every chunking; each followed by well-formed messages that must be handled; ASan, UBSan and leak counting.')
_P["C08"] = dict(programs=[seq("recv", ["recv.cpp"], backend=b, only="c08_") for b in _B3], note='For each back end: every single mutation (value kind, removal, renaming, repetition, extra member) of every node of 8 messages, pairs of mutations, all member subsets in two orders, near-miss names, names of 15 to 70000 bytes, contents of up to 70000 elements and 1100 undeclared members, histories of 3 messages, judged by an independent decoder of the declared types.')
_P["C17"] = dict(programs=[seq("vals", ["vals.cpp"], backend="all", only="c17_"),
                           # a declared operation that cannot be instantiated is a violation too
                           seq("optconv", ["optconv.cpp"], libset="none", only="c17_", uses="dap/optional.h")], note='All histories of 4-5 operations on two and three optionals and variants (copies, moves, conversions, assignments, resets) against a reference, assignment between optionals of different types, all comparison operators on all pairs, decoding of every JSON kind into 5 variants and optionals, fresh and reused, with each back end.')
_P["C18"] = dict(programs=[seq("jsonrt", ["jsonrt.cpp"], backend="all", only="c18_", budget=dict(quick=200, thorough=1500))], note='All boundary integers and powers, decimal forms, all UTF-8 boundary code points and pairs of special characters, sizes to 1 MiB, all trees of up to 6 nodes, all set/unset combinations of typed structs, foreign text forms, invalid UTF-8, reused serialisers; each value encoded by each back end and decoded by all and by an independent parser.')
_P["C19"] = dict(programs=[seq("protocol", ["protocol.cpp"], backend="all", libset="full", only="c19_", flags=("-O0",))], note="Every one of the protocol's types, members and names against a golden table generated from the DAP schema; all contents flavours, every subset of up to 8 optional members, every member missing, renamed, of every other kind, pairs of these; types that extend others over several levels; each back end.")
_STDIO = tuple("-Wl,--wrap=" + f for f in ("fgetc", "getc", "getc_unlocked", "fgetc_unlocked", "feof", "ferror", "fflush", "fread", "fwrite", "fread_unlocked", "fwrite_unlocked", "fputc", "fclose"))
_P["C24"] = dict(programs=[seq("io", ["io.cpp"], libset=["io.cpp"], only="c24_", ldflags=_STDIO),
                           mc("io_mc", ["io_mc.cpp"], libset=["io.cpp"], only="c24mc_", ldflags=("-Wl,--wrap=fclose",))], note='All scripts of 3-4 operations on combined, spied and file streams with every result of the wrapped stream and every stdio failure, against a model; all schedules of racing closes.')
_P["C20"] = dict(programs=[mc("types", ["types.cpp"], libset="full", only="c20_")], note='All schedules within the bound of first uses of types on 2-3 threads with a cold registry, init/terminate histories of depth 5-6, racing last terminates, process exit; a second release, a leak or a use after release is reported. ' + _SC)
_SOCK = dict(libset=["socket.cpp", "network.cpp"])
_P["C21"] = dict(network=True, programs=[mc("sock", ["sock.cpp"], only="c21_", **_SOCK)], note='All schedules within the bound of reads, writes, accepts and closes by 2-3 threads on a simulated TCP stack with short transfers, EINTR, resets and small buffers as deviations; descriptor accounting, descriptors beyond FD_SETSIZE. The stack is compared with the real loopback on all call sequences up to a depth (coverage.network_model). ' + _SC)
_P["C22"] = dict(network=True, programs=[mc("server", ["server.cpp"], only="c22_", **_SOCK)], note='All histories of 6 (quick) or 7 operations of one controller, and all schedules within the bound of starts, stops, destruction, clients and failing accepts, on the simulated stack. ' + _SC)
_P["C23"] = dict(network=True, programs=[mc("connect", ["connect.cpp"], only="c23_", **_SOCK)], note='Every timeout x delay x answer combination in virtual time, every failing call at every position (up to 3-4 per execution), unusual addresses, racing listeners; descriptors, blocking mode and elapsed time are checked. ' + _SC)

for _id in ("C02", "C03", "C04", "C05", "C11", "C25"):
    _P[_id]["programs"] = _P[_id]["programs"] + [seq("sess_seq", ["sess_seq.cpp"], only=_id.lower() + "_")]
for _id in ("C11", "C25"):
    _P[_id]["programs"] = _P[_id]["programs"] + [seq("sess_many", ["sess_many.cpp"], only=_id.lower() + "_", flags=("-O0",))]

for _id in ("C05", "C09"):
    _P[_id]["programs"] = _P[_id]["programs"] + [mc("sess_net", ["sess_net.cpp"], only=_id.lower() + "_")]
