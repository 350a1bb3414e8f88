#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/cxy/stdlib/"
N = S + "native/"
NOASYNC = ("The existing suite compiles coro.cxy, net.cxy, tcp.cxy and http.cxy but runs no task, timer or "
           "socket; ")

prop("C01", "A sleeping task wakes exactly once and on time",
 "A task that sleeps for a positive number of milliseconds resumes exactly once, never before that time has passed (to the clock's millisecond) and as soon after it as no other task is running, whatever other tasks sleep, wait or run meanwhile; a sleep of zero or less returns at once. "
 "Stepping the wall clock forwards or backwards may wake a sleeper early but never keeps it asleep longer than its duration plus the size of the steps.",
 ["schedules", "histories", "fault_sequences"],
 "every number of concurrent sleepers, every mix of durations (including equal and zero), every interleaving with yields, descriptor waits and task creation, every forward or backward clock step and every stall of the process",
 NOASYNC + "none sets a timer, and none can step the clock or choose an interleaving.",
 [S+"coro.cxy", N+"evloop/ae.c"],
 [("timer list and nearest-timer search", N+"evloop/ae.c aeAddTimeEvent, aeSearchNearestTimer, processTimeEvents"),
  ("backward-clock detection", N+"evloop/ae.c processTimeEvents lastTime"),
  ("sleepAsync suspends the running task on a one-shot timer", S+"coro.cxy CoroutineScheduler.sleep")],
 ["return from sleepAsync in each task, stamped with the simulated clocks"])

prop("C02", "Waiting on a descriptor has exactly one outcome and leaves nothing behind",
 "A task that waits for a descriptor to become readable or writable (one task per descriptor) resumes exactly once: with that readiness, and only when the descriptor really is ready, at end of stream or in error, or with a timeout, and only once the timeout it asked for has passed, or at once with an error if the system refuses to watch the descriptor. "
 "It is never left waiting when the descriptor has become ready, hung up or failed, nor beyond its timeout. "
 "A finished wait leaves nothing behind that can wake, time out, delay or lose any later wait or sleep, on the same descriptor, on a reused descriptor number or elsewhere.",
 ["schedules", "histories", "fault_sequences"],
 "every sequence of waits with and without timeouts on sockets and pipes, interleaved with data, hang-ups, resets, descriptor close and reuse, sleeps, and every order in which the kernel reports ready descriptors",
 NOASYNC + "the stale-state bugs this rules out need a wait that ended one way followed by another wait that ends the other way.",
 [S+"coro.cxy", N+"evloop/ae.c"],
 [("file events with an embedded timer", N+"evloop/ae.c aeCreateFileEvent, aeDeleteFileEvent, aeFileEventTimeout, aeProcessEvents"),
  ("epoll registration", N+"evloop/ae.c aeApiAddEvent, aeApiDelEvent, aeApiPoll"),
  ("fdWaitRead / fdWaitWrite", S+"coro.cxy")],
 ["result of fdWaitRead/fdWaitWrite compared with the simulated descriptor's readiness history"])

prop("C03", "No task is lost, run twice, corrupted or starved",
 "Every task that is started runs to completion exactly once with its own local state intact, for any interleaving of tasks that start other tasks, yield, sleep, wait for descriptors and finish; tasks that yield continue in the order in which they yielded. "
 "A due timer or ready descriptor is served within a bounded number of task switches even if other tasks never stop yielding. "
 "The memory held for finished tasks is reused or given back, so it is bounded by the largest number of tasks alive at one time and not by how many were ever started.",
 ["schedules", "programs"],
 "every tree of task creations and every schedule of yields, sleeps and descriptor waits, with any number of live tasks",
 NOASYNC + "context switching, stack recycling and fairness are never executed, and bursts larger than the stack cache never occur.",
 [S+"coro.cxy", S+"list.cxy"],
 [("context save and restore", S+"coro.cxy __cxy_coro_setjmp, __cxy_coro_longjmp, __async"),
  ("FIFO ready list and forced poll", S+"coro.cxy suspend, resume, yld"),
  ("stack cache", S+"coro.cxy allocStack, freeStack")],
 ["per-task step log, FIFO model of yields, count of live stack mappings"])

prop("C04", "The task mutex excludes, hands over in order and never gets stuck",
 "At most one task holds a mutex at any time; tasks that have to wait for it acquire it in the order in which they asked. "
 "Releasing it wakes exactly the oldest waiter, or, if there is none, leaves it free so that the next request succeeds at once; trying to lock it never blocks and succeeds exactly when it is free. "
 "If every holder eventually releases, every request is eventually granted.",
 ["schedules"],
 "every number of tasks and mutexes and every interleaving of lock, try-lock, release, yield, sleep and descriptor wait",
 "No test uses the mutex.",
 [S+"coro.cxy"],
 [("holder and waiter list", S+"coro.cxy Mutex.lock, tryLock, unlock")],
 ["grant, release and try-lock results against a sequential mutex model"])

prop("C05", "TCP data arrives complete, in order and unaltered, or the failure is reported",
 "What one side receives on a TCP socket is exactly a prefix of what the other side sent, in order, with nothing lost, repeated, altered or inserted, and a send of a buffer or of a file range reports success only if all of exactly that data was handed to the network. "
 "A peer that closes, resets, or stays silent beyond the requested timeout is reported as such (no data, within the timeout) and never as data; data that did arrive before an orderly close is delivered first. "
 "Only the task that sends or receives waits; every other task keeps running.",
 ["schedules", "inputs", "fault_sequences"],
 "every message size, every segmentation, partial acceptance, delay and back-pressure by the network, every point of close or reset, every timeout, and any number of concurrent connections",
 NOASYNC + "partial reads, partial writes and blocked sockets do not occur.",
 [S+"tcp.cxy", S+"net.cxy"],
 [("receive, send and sendfile loops", S+"tcp.cxy TcpSocket"),
  ("readiness waits", S+"net.cxy Socket.wait")],
 ["bytes and results seen by the program against the bytes and events of the simulated network"])

prop("C06", "Every connection is accepted once; connecting succeeds only when connected",
 "Each inbound connection is returned by accept exactly once, in arrival order, with its peer's address; each outbound connect ends with a usable connection to the requested address or with an error, and never reports success for a connection that was refused, unreachable or never established. "
 "Accept and connect end within the requested timeout and do not keep other tasks from running while they wait. "
 "A failed or timed-out attempt leaves no descriptor open, and a closed listener accepts nothing more.",
 ["schedules", "fault_sequences", "histories"],
 "every arrival order and burst of connections, every connect outcome (established late or at once, refused, reset, never answered), every timeout and every failing socket call",
 NOASYNC + "no connection is ever made.",
 [S+"tcp.cxy", S+"net.cxy"],
 [("listener", S+"tcp.cxy TcpListener.listen, accept, shutdown"),
  ("connect", S+"tcp.cxy tcpConnect, configureSocket")],
 ["accepted peers against the simulated arrivals; descriptor table after each attempt"])

prop("C07", "The HTTP server answers each request once, in order, with the right content",
 "For every well-formed request a client sends on a connection, one after the other or without waiting for the answers, the handler selected by method and path runs exactly once and sees that request's method, path, parameters, headers and body, and the client receives exactly one complete, correctly framed response per request, in order, carrying what that handler produced. "
 "This does not depend on how the bytes are split or delayed in either direction, nor on how many other connections are active. "
 "The connection stays usable for the next request unless the client asked for it to be closed or the response says so, in which case the server closes it after the response.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "every sequence of requests per connection, every segmentation and delay, every number of concurrent connections, every handler that sleeps, and static, parameterised, chunked and file responses",
 NOASYNC + "llhttp, the router and the response writer are only compiled.",
 [S+"http.cxy", S+"net.cxy", S+"trie.cxy", N+"http/llhttp.c"],
 [("request parsing callbacks", S+"http.cxy requestParserOn*"),
  ("connection loop and response framing", S+"http.cxy Connection.handle, receive, sendResponse, Response.stream"),
  ("routing and parameters", S+"http.cxy Router")],
 ["responses parsed by simulated clients, handler invocations recorded in the server program"])

prop("C08", "A bad, slow or vanished HTTP client harms nobody else and leaks nothing",
 "A request that is not well-formed HTTP is answered with an error status, or its connection is closed, and never reaches a handler. "
 "Nothing one client sends, withholds, or breaks off at any byte changes, delays or corrupts what another client receives, or stops the server from serving. "
 "Once its clients are gone, the server has released every descriptor, task and buffer it used for them.",
 ["inputs", "schedules", "fault_sequences"],
 "every malformed or truncated request, every point of close or reset in either direction, every stalled client, next to any number of healthy connections",
 NOASYNC + "no malformed input, reset or leak is exercised.",
 [S+"http.cxy", S+"tcp.cxy", S+"coro.cxy"],
 [("parse failure path", S+"http.cxy Request.feed, Connection.receive, handleConnection"),
  ("connection lifetime", S+"http.cxy Server.accept, handleConnection; "+S+"net.cxy Socket.close")],
 ["healthy clients' responses, handler log, descriptor table and live memory at quiescence"])

prop("C09", "The HTTP client sends what was asked and never passes off a partial response",
 "A fetch sends one well-formed request with exactly the given method, resource, arguments, headers and body (text, form or file), and returns successfully only with the complete response of that request: its status and body exactly as the server sent them, however the bytes were split or delayed. "
 "A connection that is refused, reset, closed early, silent beyond the session's timeout, or that carries something that is not an HTTP response makes the call fail; it never hangs and never returns truncated or mixed-up content. "
 "Concurrent fetches do not affect one another, and a fetch leaves no descriptor or memory behind, whatever its outcome.",
 ["inputs", "schedules", "fault_sequences"],
 "every request shape, every response framing (content length, chunked, none), every segmentation, and every point of failure of the connection, over sequential and concurrent fetches",
 NOASYNC + "the client is never run.",
 [S+"fetch.cxy", S+"tcp.cxy", N+"http/llhttp.c"],
 [("request encoding", S+"fetch.cxy Request.submit, Form"),
  ("response parsing", S+"fetch.cxy Response.receive, feed, responseParserOn*"),
  ("session", S+"fetch.cxy fetch, Session.perform")],
 ["request bytes seen by the simulated server, response seen by the program"])

prop("C10", "Name resolution returns only genuine answers and always terminates",
 "Resolving a host name yields an address only if the hosts file or a genuine answer to that very query gave it, and yields no address otherwise; replies that are forged, stale, malformed or for another question are never used. "
 "Resolution ends in bounded time under any loss, delay, duplication or reordering of messages, and succeeds if the network lets a query and its answer through within the resolver's retries. "
 "Other tasks run meanwhile, concurrent resolutions do not mix, and every descriptor and buffer used is released.",
 ["fault_sequences", "schedules", "inputs"],
 "every loss, delay, duplication and reordering of datagrams, every forged or malformed reply, truncated replies that need TCP, alias chains, several servers and concurrent resolutions",
 "Nothing in the suite performs a lookup.",
 [S+"net.cxy", N+"dns/dns.c"],
 [("asynchronous resolution loop", S+"net.cxy getRemoteAddress"),
  ("query state machine and reply validation", N+"dns/dns.c dns_so_check, dns_so_verify, dns_res_exec, dns_ai_nextent")],
 ["address returned against the records the simulated servers published; simulated time to completion; descriptor table"])

prop("C11", "File and pipe I/O transfers every byte or reports the failure",
 "Reading a file or pipe to its end returns exactly its bytes, writing completely or copying a file leaves exactly those bytes at the destination, and each of these reports success only then, even if the system reads, writes or copies fewer bytes at a time than asked for or makes the task wait. "
 "An error of the system at any point is reported to the caller and never taken for the end of the file. "
 "Waiting is limited by the requested timeout and does not stop other tasks, and descriptors and temporary files are released when their owner goes away.",
 ["inputs", "fault_sequences", "schedules"],
 "every size, every sequence of short, blocked, interrupted or failing reads, writes, copies, seeks and stats, on regular files and on pipes whose other end is slow or closes",
 "os.cxy is compiled by the suite; no short or failing transfer is ever seen.",
 [S+"os.cxy", N+"nos.c", "src/cxy/runtime/builtins.cxy"],
 [("stream loops", S+"os.cxy FileInputStream.readAsync, readAll, FileOutputStream.writeAsync"),
  ("copy", S+"os.cxy copy"), ("ownership", S+"os.cxy FileDescriptor, TempFile")],
 ["bytes and results against the simulated files and pipes"])

prop("C12", "A child process gets exactly its command, streams and environment",
 "Starting a command creates exactly one child process that runs that command with those arguments and environment, with its standard input, output and error connected to the parent's ends; the parent reads exactly what the child writes, sees end of stream when the child has finished, and gets its exit status. "
 "A command that cannot be started never lets a second copy of the program run on. "
 "Waiting for a child asynchronously, reading from it and writing to it do not stop other tasks, and descriptors are released on every path, including failures.",
 ["fault_sequences", "schedules"],
 "every order of output, exit and wait, every exit status or signal, and every failing pipe, fork, exec or wait call",
 "No test starts a process through the library in a way that observes its streams.",
 [S+"os.cxy"],
 [("spawn", S+"os.cxy execvpe, execute"), ("wait", S+"os.cxy Process.wait, waitAsync, isExited")],
 ["descriptor table and arguments at exec in a recorded child, bytes and status seen by the parent"])

prop("C13", "Output streams and logs emit everything once, in order",
 "Everything written to a standard, buffered or socket output stream, and each log line of an enabled level, comes out exactly once, complete and in the order written, for any sizes of writes and of the buffer and even if the system accepts only part of a write at a time; a log line of a disabled level emits nothing. "
 "Buffered data is emitted at the latest when the stream is synced or dropped.",
 ["inputs", "fault_sequences"],
 "every sequence of write sizes around the buffer size, every pattern of partial acceptance and waiting by the system, every log level",
 "The suite prints only through one small write at a time to a terminal or file that accepts everything.",
 ["src/cxy/runtime/builtins.cxy", S+"net.cxy", S+"log.cxy"],
 [("buffering", "src/cxy/runtime/builtins.cxy BufferedOutputStream"), ("standard streams", "src/cxy/runtime/builtins.cxy StdOutputStream"),
  ("logger", S+"log.cxy Logger.log")],
 ["bytes accepted by the simulated descriptor against the model of what was written"])

prop("C14", "Shared objects are destroyed exactly once, after their last use, on any thread",
 "An object whose references are held, copied and dropped by any number of threads is destroyed exactly once, by whichever thread drops the last reference, and not while anything still holds one, whether the references sit in variables, parameters, results, members or containers and on whichever path (branch, loop, early return, exception, move) the program leaves their scope; its memory is then given back exactly once.",
 ["schedules"],
 "every interleaving of copying and dropping references to the same object on any number of threads, and every path by which a reference is kept, passed on, replaced or dropped",
 "No test runs two threads, and the losing interleavings are a few instructions wide.",
 ["src/cxy/runtime/builtins.cxy", S+"thread.cxy", "src/cxy/lang/middle/mem/manage.c", "src/cxy/lang/middle/mem/finalize.c", "src/cxy/lang/backend/c"],
 [("atomic reference count", "src/cxy/runtime/builtins.cxy __smart_ptr_get, __smart_ptr_drop"), ("placing of retains and releases", "src/cxy/lang/middle/mem/manage.c"), ("code of retains, releases and atomic members", "src/cxy/lang/backend/c")],
 ["destructor and free events per object"])

prop("C15", "A launched thread runs its work once and a join waits for it",
 "Launching a thread runs the given work exactly once, with the values captured at launch intact for as long as it runs (objects are captured by reference and stay intact while their owner keeps them); joining returns only after that work has finished, so everything it did is visible, and joining again does nothing. "
 "Each thread has tasks, timers and descriptor waits of its own that behave as on the main thread, and a launch that fails is reported, runs nothing and leaves no memory in use.",
 ["schedules", "fault_sequences"],
 "every interleaving of launching, running, finishing and joining any number of threads, each with any task activity, and every failing thread creation",
 "thread.cxy is only compiled.",
 [S+"thread.cxy", N+"thread/tinythread.c", S+"coro.cxy"],
 [("launch", S+"thread.cxy __launch"), ("native wrapper", N+"thread/tinythread.c thrd_create, thrd_join"),
  ("thread-local scheduler", S+"coro.cxy __get_scheduler")],
 ["work start/finish and join events in simulated order"])

prop("C16", "Compiling the same program always gives the same output",
 "Compiling the same sources with the same options always has the same outcome, and on success produces byte-for-byte the same generated code, whatever addresses the operating system happens to give the compiler's memory and whatever the memory contained before.",
 ["programs", "schedules"],
 "every program, every placement of the compiler's heap and mappings and every initial content of fresh memory",
 "The suite runs each compilation once, with address randomisation switched off because the outcome otherwise varies.",
 ["src/cxy/core", "src/cxy/lang", "src/cxy/driver"],
 [("type interning and hash tables", "src/cxy/core/hash.c, src/cxy/lang/frontend/ttable.c"),
  ("code generation order", "src/cxy/lang/backend/c")],
 ["generated C and exit status across simulated memory layouts"])

prop("C17", "The compiler never reports success for a build an I/O failure damaged",
 "If a system call fails, a read or write is short, memory or disk runs out, or the native compiler cannot be run or fails, at any point of a build, the compiler either still produces exactly the output of an undisturbed build or says so with a diagnostic and a failing exit status; it never exits with success having left a missing, truncated or different output, and never crashes silently. "
 "A later undisturbed build produces the correct output whatever a failed or killed one left behind.",
 ["fault_sequences", "crash_points"],
 "every single system call of a build failing, being cut short or being the last one before the process is killed, and random combinations",
 "The suite never makes a file operation fail.",
 ["src/cxy/driver", "src/cxy/core/utils.c", "src/cxy/lang/backend/c"],
 [("reading sources", "src/cxy/core/utils.c readFile"), ("writing generated code", "src/cxy/lang/backend/c/generate.c"),
  ("running the native compiler", "src/cxy/lang/backend/c/generate.c")],
 ["exit status and output bytes against the undisturbed build"])

prop("C18", "TLS sockets carry data exactly or report failure",
 "Data sent and received over a TLS socket arrives complete, in order and unaltered for any segmentation, delay and partial acceptance by the network, while other tasks run; a handshake or transfer that the network or peer breaks off or tampers with fails, within the timeout where one applies, without leaving a descriptor open.",
 ["schedules", "fault_sequences"],
 "every segmentation and delay of the TLS records, every point of close, reset or corruption, and any number of concurrent connections",
 "ssl.cxy is only compiled.",
 [S+"ssl.cxy", S+"net.cxy"],
 [("handshake loop", S+"ssl.cxy SslSocket.create"), ("send and receive loops", S+"ssl.cxy SslSocket.sendBuffer, receive")],
 ["plaintext at both ends of the simulated network"])

PURE = "a snapshot or unit test fixes a handful of inputs only"
prop("C19", "Containers behave like their mathematical models",
 "Hash maps and sets, vectors, lists and tries hold exactly the elements that were added and not removed, for every sequence of operations.",
 ["inputs", "histories"], "every sequence of container operations", PURE,
 [S+"hash.cxy", S+"vector.cxy", S+"list.cxy", S+"trie.cxy"], [("containers", S+"hash.cxy, vector.cxy, list.cxy, trie.cxy")])
prop("C20", "Compiled programs mean what their source says",
 "A program the compiler accepts behaves as its source prescribes, and a program that breaks the language's rules is rejected with a diagnostic.",
 ["programs"], "every program", PURE, ["src/cxy/lang"], [("front end, middle end, C back end", "src/cxy/lang")])
prop("C21", "Encoders and parsers of the library invert one another",
 "Base64, URL, JSON, path and argument parsing accept exactly their formats, and decoding what was encoded gives back the original.",
 ["inputs"], "every input", PURE, [S+"base64.cxy", S+"json.cxy", S+"path.cxy", S+"args.cxy"], [("codecs", S+"base64.cxy, json.cxy, path.cxy, args.cxy")])
prop("C22", "The static file server serves exactly the files under its root",
 "The file server answers each request with the exact current content of the requested file under its root, honouring ranges and cache validators, and never serves anything outside that root.",
 ["inputs", "histories", "fault_sequences"], "every request and every change to the files", PURE,
 [S+"fserver.cxy"], [("file server middleware", S+"fserver.cxy")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
for p in P: assert len(p["title"]) <= 80, p["title"]
