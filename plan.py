"""What is checked with what. tools/gen_manifest.py turns this into MANIFEST.json."""
SIMOS = ["kernel: epoll, descriptors, sockets, pipes, clocks, memory (sim/os.cpp)"]
BASE = ["cxy compiler of the tree (compiles the library and the harness program)", "runtime/builtins.cxy", "stdlib/coro.cxy", "stdlib/native/evloop/ae.c"]
NOTE = ("Seeded search over schedules and faults: evidence, not proof. Trusts the simulated kernel in sim/ to behave like Linux where the program can tell, "
        "and clang to compile the generated C. ")
TECH = "deterministic simulation with fault injection: the real library over a simulated kernel, seeded schedules and faults, "

HARNESSES = {
    "ev": {},
    "tcp": {},
    "dns": {},
    "comp": {},
    "thr": {},
    "http": {},
    "io": {},
    "proc": {},
    "fetch": {},
    "tls": {},
}
PROPS = {}


def prop(pid, harness, what, note, real=(), stubs=(), quick=None, thorough=None, **kw):
    PROPS[pid] = dict(harness=harness, technique=TECH + what, level="exploration", level_note=NOTE + note, real=kw.pop("real_only", None) or BASE + list(real), stubs=kw.pop("stubs_only", None) or SIMOS + list(stubs),
                      quick=quick or {"secs": 38, "count": 40000}, thorough=thorough or {"secs": 600}, **kw)


prop("C01", "ev", "timing oracle on every sleep", "Up to 90 tasks, wall-clock steps of up to an hour, process stalls, interrupted waits.")
prop("C02", "ev", "readiness and timeout oracle on every descriptor wait", "Socket pairs and pipes whose peers send, read, close and reset at random moments; descriptor numbers are reused.", stubs=["peers of the descriptors (actors)"])
prop("C03", "ev", "task life-cycle model, stack accounting", "Up to 840 tasks per run in waves, deep stacks, tasks that yield thousands of times.")
prop("C04", "ev", "sequential mutex model", "Three mutexes, up to 90 tasks.")
TCPR = ["stdlib/tcp.cxy", "stdlib/net.cxy (Address, Socket)"]
prop("C05", "tcp", "byte-exact stream model, send-log refinement, wait oracles", "Up to 7 clients per listener and 3 connectors per run; messages up to 70 kB over windows of 1 byte to 64 kB; a task never closes a descriptor another task waits on.", real=TCPR, stubs=["network peers (actors)", "file read by sendFile"])
prop("C06", "tcp", "arrival-order model of accept, outcome model of connect, descriptor accounting", "Failing accept and socket calls, descriptor exhaustion, refused, unreachable, unanswered and reset connections, IPv4 and IPv6.", real=TCPR, stubs=["network peers (actors)"])
prop("C10", "dns", "genuineness of every address, refinement of the resolver's retry, search and fallback rules, descriptor and memory accounting", "Up to 45 lookups per run against up to 3 servers; failing allocations, lost, late, duplicated, forged, stale, malformed and truncated answers, TCP fallback with cut, reset and silent connections, hosts files, search lists; lookups hit by a server that answers SERVFAIL, refuses or damages its answers may fail and are judged for safety only.", real=["stdlib/net.cxy (getRemoteAddress)", "stdlib/native/dns/dns.c"], stubs=["name servers and forgers (actors)", "files in /etc"])
HTTPR = TCPR + ["stdlib/http.cxy (server, router, middleware)", "stdlib/os.cxy (open)", "stdlib/native/http: api.c, http.c, llhttp.c"]
HNOTE = "Up to 12 connections of up to 6 requests per run, bodies up to 40 kB, nine routes, buffered, chunked and file responses; one thread serves."
prop("C07", "http", "request and response oracle for every client of the server, byte for byte, with arrival order and closing rules", HNOTE, real=HTTPR, stubs=["HTTP clients (actors)", "files served"], variants={"plain": 5, "asan": 3})
prop("C08", "http", "clients that send malformed, cut, stalled, reset or unread exchanges beside good ones, with the good ones' response oracle, descriptor and memory accounting", HNOTE + " Twenty kinds of malformed requests, failing accept and file calls, scarce descriptors.", real=HTTPR, stubs=["HTTP clients (actors)", "files served"], variants={"plain": 5, "asan": 3})
prop("C11", "io", "byte-exact model of every file, pipe, copy and temporary file, with attribution of every injected error to the operation it hit", "Up to 8 tasks of 12 operations; files up to 1 MB; one hard error at a time, full disks, short transfers, spurious readiness, silent or closing pipe ends.", real=["stdlib/os.cxy", "stdlib/native/nos.c"], stubs=["file system", "other ends of pipes (actors)"], variants={"plain": 5, "asan": 3})
prop("C13", "io", "byte-exact model of every stream and log line", "Up to 8 tasks of 12 operations; buffer capacities of 1 to 2000 bytes; standard streams, logger, buffered, socket and buffered socket streams under partial acceptance, waiting, closing readers.", real=TCPR + ["stdlib/log.cxy", "stdlib/time.cxy"], stubs=["readers of the sockets (actors)", "standard descriptors"], variants={"plain": 5, "asan": 3})
prop("C09", "fetch", "byte-exact request and response oracle for every fetch against scripted servers, with descriptor and memory accounting", "Up to 6 tasks of 5 fetches; every method, arguments, headers, text, form, upload and file bodies up to 60 kB; responses by length, chunks or end of stream with interim responses, cut, reset, silent, malformed (22 kinds) or sent too early; failing connects; plain HTTP only. The response's headers cannot be read by a program, so they are not judged.", real=TCPR + ["stdlib/fetch.cxy", "stdlib/native/http: api.c, http.c, llhttp.c", "stdlib/native/dns/dns.c (hosts file)"], stubs=["HTTP servers (actors)", "files sent"], variants={"plain": 6, "asan": 2})
prop("C12", "proc", "model of every child's command, arguments, environment, streams and exit status; the forked copy is followed until it executes its command", "Up to 7 tasks of 6 children; missing and forbidden commands, failing pipe, fork, dup2, pidfd_open, interrupted waits, scarce descriptors, children that close their output early, are killed, linger, or write to nobody. Executing a command is immediate once the copy has called exec.", real=["stdlib/os.cxy (Process and the functions that start one)", "stdlib/native/nos.c"], stubs=["fork (a real copy, followed until exec), exec, wait, pidfd", "the commands (actors)"], variants={"plain": 6, "asan": 2})
prop("C18", "tls", "byte-exact model of both directions of every TLS connection, with handshake, session end and tampering oracles", "Up to 6 connections per run as client and server, TLS 1.2 and 1.3, key updates, tickets, small records; sessions resumed or verified by certificate are not exercised (the code does neither).", real=["stdlib/ssl.cxy", "stdlib/net.cxy", "OpenSSL (the machine's static libraries; its reads, writes, clock and randomness are the simulator's)"], stubs=["TLS peers (the same OpenSSL behind actors)", "files sent"], variants={"plain": 6, "asan": 2})
THR = dict(quick={"secs": 50, "count": 40000}, compiled=True, real=["stdlib/thread.cxy", "stdlib/native/thread/tinythread.c"], stubs=["POSIX threads, mutexes and thread-local keys: one runs at a time, the scheduler decides which and where it is preempted (sim/thr.cpp; at every access to memory in the variant tsan, sim/tsanrt.cpp)"], variants={"tsan": 4, "plain": 2, "asan": 2})
prop("C14", "thr", "life-cycle model of every object under seeded preemption between accesses to memory", "Up to 8 threads of up to 40 tasks share objects in 50 patterns of keeping, passing on and dropping references; sequentially consistent interleavings only (no weak memory).", **THR)
prop("C15", "thr", "life-cycle model of launched threads and of the tasks, timers and waits on each", "Up to 8 threads and 40 tasks per run, failing thread creation and allocations; sequentially consistent interleavings only.", **THR)
COMP = dict(quick={"secs": 65, "count": 40000}, opts={"repo": "{repo}", "verif": "{verif}"}, variants={"plain": 8}, real_only=["the whole cxy compiler: src/cxy/core, src/cxy/lang, src/cxy/driver, linked with libclang for C headers", "src/cxy/runtime/builtins.cxy and src/cxy/stdlib as its input"], stubs_only=["allocator (placement, reuse, contents, failure)", "files under the working directory, pipes, child processes, clock", "native C compiler: a stand-in whose program is a digest of its command and sources", "output of the compiler's query for include directories (recorded once from the real command)"])
CNOTE = "Builds of the programs in harness/comp/programs, the library's modules, the harness programs and generated programs of up to 60 units."
prop("C16", "comp", "byte comparison of every outcome of the same compilation under seeded memory placements and contents", CNOTE + " Not simulated: memory of libclang and libc themselves.", **COMP)
prop("C17", "comp", "comparison with the undisturbed build after failing operations, allocations, disks and kills", CNOTE + " Up to three faults per build, up to two disturbed builds before a clean one; aborting with a message counts as reporting.", **COMP)
NOT_APPLICABLE = {
    "C19": "Containers are pure functions of the sequence of operations: no schedule, clock, fault or interleaving for a simulation to vary.",
    "C20": "The meaning of a compiled program is a pure function of its source; nothing in it for a simulator to schedule or break (C16 and C17 take the compiler's I/O and memory).",
    "C21": "Encoders and parsers are pure functions of their input.",
    "C22": "stdlib/fserver.cxy does not compile at the pinned commit, so there is no behaviour to simulate.",
}
