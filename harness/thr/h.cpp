// Launched threads and objects shared between them (C14, C15): the scenario and its oracles.
#include "sim.h"
#include <cstring>
#include <algorithm>
using namespace sim;
enum Op { END = 0, SLEEP = 1, YIELD = 2, RD = 3, WR = 4, SPAWN = 5, LAUNCH = 6, DEEP = 7, CHURN = 20, JOIN = 21 };
static const int NPAT = 50, ARRAYS = 43; // the pattern with the known finding is rare
enum { READABLE = 1, WRITABLE = 2, TIMEOUT = 4 };
static bool C14, C15; static int max_tasks, max_threads, nthreads = 1, scale; static bool done_ = false;
struct Task {
    bool exists = false, started = false, ended = false; int tid = -1, op = -1, left = 0, kind = 0; i64 a = 0, b = 0, seed = 0; u64 t0 = 0, stall0 = 0; i64 block0 = 0;
    int fd = -1; EpP peer; int child = -1; int launcher = -1; i64 obj = 0; int churn = 0, churned = 0; bool in_churn = false; i64 temp = 0; std::vector<i64> fresh;
    // of a thread's work
    bool launched = false, refused = false; int ran = 0, body = 0, over = 0; u64 refused0 = 0; int checks = 0;
};
static std::vector<Task> T; static std::map<int, i64> blocked_ns; static std::map<int, int> alive, tasks_on; static i64 next_obj = 1;
struct Ob { u64 block = 0; const void *at = nullptr; bool dead = false; int holders = 0; bool temp = false; };
static std::map<i64, Ob> O;
static int new_task(int kind) { Task t; t.exists = true; t.kind = kind; t.left = range(0, 8, "ops"); t.seed = (i64)choose(1u << 28, "seed"); T.push_back(t); return T.size() - 1; }
static u64 late_bound(const Task &t, u64 ms) { return t.t0 + ms * MS + 3 * MS + (stall_total() - t.stall0) + (blocked_ns[t.tid] - t.block0); }
static void begin(Task &t, int op, i64 a, i64 b) { t.op = op; t.a = a; t.b = b; t.t0 = now_ns(); t.stall0 = stall_total(); t.block0 = blocked_ns[t.tid]; }
static Task &at_(int id, const char *what) {
    if (id < 0 || id >= (int)T.size() || !T[id].exists) violate("C15:corrupt", "%s comes from a task that does not exist (%d)", what, id);
    Task &t = T[id]; if (t.started && t.tid != cur_thread()) violate("C15:wrong-thread", "task %d belongs to thread %d but %s happens on thread %d", id, t.tid, what, cur_thread());
    return t;
}
static void check_temp(Task &t, int id) {
    if (!t.temp) return; Ob &o = O[t.temp];
    if (C14 && !o.dead) violate("C14:not-destroyed", "task %d dropped its last reference to object %lld, which has not been destroyed", id, (long long)t.temp);
    if (C14 && o.block && block_at(o.at) == o.block) violate("C14:not-freed", "object %lld has been destroyed but its memory has not been given back", (long long)t.temp);
    t.temp = 0;
}
static i64 dur() { switch (choose(5, "dur")) { case 0: return 0; case 1: return range(1, 3, "ms"); case 2: return range(1, 30, "ms"); case 3: return range(1, 200, "ms"); default: return range(1, 900, "ms"); } }
static int others_alive(int id) { return alive[T[id].tid] - 1; }
static void peer_plan(int id) {
    int gen = T[id].fd; int n = range(0, 2, "peer_n");
    for (int i = 0; i < n; i++) after(range(1, 200, "peer_at") * 300 * US, [id, gen] { Task &t = T[id]; if (!t.peer || t.peer->closed || t.fd != gen) return; switch (choose(4, "peer")) { case 0: case 1: t.peer->send("x"); break; case 2: t.peer->take(); if (t.peer->hole) { t.peer->inflight -= t.peer->hole; t.peer->hole = 0; } break; case 3: t.peer->close_(); break; } });
}
static void open_fd(int id) {
    Task &t = T[id]; NetProfile p; p.lat_min = 5 * US; p.lat_max = 500 * US;
    t.fd = sut_socketpair_fd(&t.peer, 65536, 16, p, p);
    if (coin(600, "fillup")) { EpP e = endpoint_of(t.fd); size_t s = e->tx_space(); e->peer.lock()->inflight += s; t.peer->hole = s; }
    peer_plan(id);
}
static int drill = -1, drilled = 0; static unsigned drill_mem = 0, drill_pm = 0; static i64 drill_base = 0;
static int launch_op(int id, int left) { int l = new_task(4), c = new_task(1); if (left >= 0) T[l].left = left; T[l].child = c; T[c].launcher = l; i64 ob = next_obj++; T[l].obj = T[c].obj = ob; O[ob].holders = 1; T[c].churn = range(0, 6, "churns"); begin(T[id], LAUNCH, l, T[l].seed); ev("task %d: launch thread work %d by task %d", id, c, l); return LAUNCH; }
static int decide(int id) {
    Task &t = T[id];
    if (t.in_churn) {
        check_temp(t, id); t.churned++; int how = choose(9, "churn"); if (how > 6) how = 5; t.a = 0; if (how == 5) { t.a = choose(60, "rare-pattern") == 59 ? ARRAYS : choose(NPAT - 1, "pattern"); if (t.a == ARRAYS) t.a = choose(2, "arrays") ? NPAT - 1 : ARRAYS; }
        if (how == 3 || how == 4) { t.temp = next_obj++; O[t.temp].temp = true; t.a = t.temp; }
        begin(t, CHURN, t.a, how); ev("task %d: churn %d", id, how); return how;
    }
    if (id == 0 && drill >= 0) { // launches that fail, one after the other: what each leaves behind
        if (others_alive(0)) { begin(t, SLEEP, 1, 0); return SLEEP; }
        if (drilled == 3) drill_base = live_bytes();
        if (drilled < drill) { drilled++; (drill_mem ? sysf.native_alloc_fail_permille : sysf.thread_fail_permille) = 1000; return launch_op(id, 0); }
        int failed = 0; for (auto &c : T) failed += c.refused;
        if (C15 && failed == drill && live_bytes() - drill_base >= (drill - 3) * 8) violate("C15:leak", "%d launches that failed have left %lld bytes of memory in use", drill - 3, (long long)(live_bytes() - drill_base));
        sysf.native_alloc_fail_permille = drill_mem; sysf.thread_fail_permille = drill_pm; drill = -1; count("drills");
    }
    bool root = id == 0 || t.kind == 1;   // the work of a thread: it ends last of the tasks on its thread
    if (t.left <= 0) {
        if (!root || others_alive(id) == 0) { begin(t, END, 0, 0); ev("task %d: end", id); return END; }
        if (coin(300, "linger")) { begin(t, YIELD, 0, 0); return YIELD; }
        begin(t, SLEEP, range(1, 20, "ms"), 0); return SLEEP;
    }
    t.left--;
    for (;;) switch (choose(10, "op")) {
        case 0: case 1: begin(t, SLEEP, dur(), 0); ev("task %d: sleep %lld", id, (long long)t.a); return SLEEP;
        case 2: begin(t, YIELD, 0, 0); return YIELD;
        case 3: case 4: {
            if (t.fd < 0) open_fd(id); bool rd = choose(2, "dir") == 0;
            EpP e = endpoint_of(t.fd); if (e && !rd) { size_t s = e->tx_space(); if (s && coin(700, "refill") && !t.peer->closed) { t.peer->inflight += s; t.peer->hole += s; } } if (e && rd) e->take();
            begin(t, rd ? RD : WR, t.fd, range(1, 60, "timeout")); ev("task %d: wait %s %d for %lld ms", id, rd ? "r" : "w", t.fd, (long long)t.b); return t.op; }
        case 5: { if ((int)T.size() + 2 > max_tasks) break; int c = new_task(0); Task &t2 = T[id]; begin(t2, SPAWN, c, T[c].seed); ev("task %d: start task %d", id, c); return SPAWN; }
        case 6: case 7: case 8: { if ((int)T.size() + 2 > max_tasks || nthreads >= max_threads) break; nthreads++; return launch_op(id, -1); }
        case 9: begin(t, DEEP, range(0, 30, "depth"), 0); return DEEP;
    }
}
extern "C" {
int32_t hx_next(int32_t id) { at_(id, "a step"); return decide(id); }
int64_t hx_a(int32_t id) { return T[id].a; }
int64_t hx_b(int32_t id) { Task &t = T[id]; if (t.kind == 4 && t.op < 0) return t.obj; if (t.kind == 4 && t.op == JOIN) return t.obj; if (t.kind == 1 && t.op < 0) return t.churn; return t.b; }
void hx_start(int32_t id, int32_t kind, int64_t seed) {
    if (id < 0 || id >= (int)T.size()) violate("C15:corrupt", "work starts with captured values that were never passed (%d)", id);
    Task &t = T[id]; ev("task %d: start stage %d", id, kind);
    if (kind == 2 || kind == 3) {
        if (C15 && t.tid != cur_thread()) violate("C15:wrong-thread", "the work of thread %d ends on thread %d", t.tid, cur_thread());
        if (kind == 2) { t.body++; } else { t.over++; if (C15 && (t.over != 1 || t.ran != 1)) violate("C15:repeated", "the work of task %d ended %d times", id, t.over); count("threads-that-ran"); }
        return;
    }
    if (C15 && seed != (kind == 0 && id == 0 ? 7777 : kind == 0 ? t.seed : kind == 4 ? t.seed : T[t.launcher].seed)) violate("C15:corrupt", "task %d started with an argument that is not the one it was given", id);
    if (kind == 1) {
        t.ran++; if (C15 && t.ran > 1) violate("C15:repeated", "the work of task %d was run %d times", id, t.ran);
        if (C15 && t.refused) violate("C15:ran-after-failure", "the launch of task %d failed but its work runs", id);
        if (C15 && cur_thread() == T[t.launcher].tid) violate("C15:wrong-thread", "the work of a launched thread runs on the thread that launched it");
        if (C15 && tasks_on[cur_thread()]) violate("C15:wrong-thread", "two launches run on the same thread");
    } else if (C15 && t.started) violate("C15:repeated", "task %d was started twice", id);
    t.started = true; t.tid = cur_thread(); tasks_on[t.tid]++; alive[t.tid]++; if (kind == 4) t.refused0 = refused_by(t.tid);
    if (kind != 4 && kind != 1) t.op = -1;
}
void hx_check(int32_t id, int32_t what, int64_t v, int64_t want) {
    if (id < 0 || id >= (int)T.size()) violate("C15:corrupt", "a captured value was changed: task %d", id);
    if (what <= 5) { i64 s = T[T[id].launcher].seed; want = what == 1 ? s * 7 : what == 2 ? s + 11 : what == 3 ? s & 0xffff : what == 5 ? s : s * 8 + 11; T[id].checks++; }
    if (v != want && (C15 || what > 5)) violate("C15:corrupt", "task %d on thread %d finds %lld instead of %lld in %s", id, cur_thread(), (long long)v, (long long)want, what <= 5 ? "a captured value" : "a variable of its own");
}
void hx_launched(int32_t id, int32_t child, int32_t ok) {
    Task &l = at_(id, "a launch"); Task &c = T[child]; bool refused = refused_by(cur_thread()) != l.refused0;
    if (ok) { if (c.refused) return; c.launched = true; if (C15 && refused) violate("C15:false-success", "the system could not create a thread for task %d but the launch reports success", child); count("launches"); }
    else { c.refused = true; if (C15 && !refused) violate("C15:false-failure", "the launch of task %d reports a failure although the thread was created", child); if (C15 && c.ran) violate("C15:ran-after-failure", "a launch that failed ran its work"); count("launches-refused"); O[c.obj].holders = 1; }
}
void hx_join(int32_t id, int32_t child, int32_t stage) {
    Task &l = at_(id, "a join"); Task &c = T[child]; ev("task %d: join stage %d of %d", id, stage, child);
    if (stage == 0) { begin(l, JOIN, 0, 0); return; }
    if (stage == 1) {
        blocked_ns[l.tid] += now_ns() - l.t0; count("joins");
        if (C15 && !c.refused && c.over != 1) violate("C15:join-early", "the join of task %d's thread returned before its work had %s", child, c.ran ? "finished" : "even started");
        c.ended = true; if (!c.refused && c.started) alive[c.tid]--;
    }
    l.t0 = now_ns();
}
void hx_ret(int32_t id, int32_t op, int64_t rc) {
    Task &t = at_(id, "the end of an operation"); u64 el = now_ns() - t.t0;
    if (C15 && op != t.op) violate("C15:corrupt", "task %d: operation %d returns as %d", id, t.op, op);
    if (C15 && op == SLEEP && t.a > 0 && (i64)(el / 1000) < t.a * 1000 - 1000) violate("C15:early", "task %d on thread %d slept %.3f ms instead of %lld", id, t.tid, el / 1e6, (long long)t.a);
    if (C15 && (op == RD || op == WR)) {
        bool rdy = op == RD ? fd_readable(t.a) : fd_writable(t.a); i64 want = op == RD ? READABLE : WRITABLE;
        if (rc == want) { if (!rdy) violate("C15:not-ready", "task %d: descriptor %lld is reported ready and is not", id, (long long)t.a); }
        else if (rc == TIMEOUT) { if ((i64)(el / 1000) < t.b * 1000 - 1000) violate("C15:early-timeout", "task %d: a wait of %lld ms timed out after %.3f", id, (long long)t.b, el / 1e6); }
        else violate("C15:bad-result", "task %d: a wait returned %lld", id, (long long)rc);
    }
    count("operations"); state_mark(mix(mix(t.tid * 64 + op, alive[t.tid]), nthreads * 100 + live_threads()));
    if (op == END) { t.ended = true; if (t.kind == 0) alive[t.tid]--; if (t.kind == 4) { } t.op = -2; }
    else t.op = -1;
    if (op == END && id == 0) done_ = true;
}
void hx_made(int64_t id, const void *at) { Ob &o = O[id]; if (C14 && o.block) violate("C14:corrupt", "object %lld is made twice", (long long)id); o.at = at; o.block = block_at(at); count("objects"); }
void hx_dead(int64_t id, int64_t a, int64_t b) {
    if (!O.count(id) || a != id * 3 + 1 || b != (id ^ 0x5a5a)) { if (C14) violate("C14:corrupt", "the destructor finds an object that was destroyed before or never made (%lld)", (long long)id); return; }
    Ob &o = O[id]; ev("object %lld destroyed", (long long)id);
    if (C14 && o.dead) violate("C14:destroyed-twice", "object %lld is destroyed a second time", (long long)id);
    if (C14 && o.holders > 0) violate("C14:destroyed-early", "object %lld is destroyed while %d thread%s still hold%s it", (long long)id, o.holders, o.holders > 1 ? "s" : "", o.holders > 1 ? "" : "s");
    o.dead = true;
}
int32_t hx_pick(int32_t id, int32_t n) { return choose(n, "pick"); }
int64_t hx_fresh(int32_t id) { i64 o = next_obj++; O[o].temp = true; T[id].fresh.push_back(o); return o; }
void hx_pattern(int32_t id, int32_t k) {
    Task &t = T[id]; count("patterns");
    for (i64 f : t.fresh) { Ob &o = O[f]; const char *c = k == ARRAYS ? "C14:array-leak" : "C14:not-destroyed";
        if (C14 && !o.dead) violate(c, "task %d has dropped every reference to object %lld (pattern %d), which has not been destroyed", id, (long long)f, k);
        if (C14 && o.block && block_at(o.at) == o.block) violate("C14:not-freed", "object %lld has been destroyed (pattern %d) but its memory has not been given back", (long long)f, k); }
    t.fresh.clear();
}
void hx_use(int32_t id, int64_t obj, int64_t a, int64_t b) {
    if (!C14) return;
    if (!O.count(obj) || a != obj * 3 + 1 || b != (obj ^ 0x5a5a) || O[obj].dead) violate("C14:used-after", "task %d on thread %d uses an object it holds a reference to and finds it destroyed or changed (%lld)", id, cur_thread(), (long long)obj);
}
void hx_ref(int32_t id, int64_t obj, int32_t d) {
    Task &t = T[id]; if (d < 0) check_temp(t, id);
    if (!O.count(obj)) violate("C14:used-after", "task %d finds an object destroyed or changed (%lld)", id, (long long)obj);
    O[obj].holders += d; ev("task %d: object %lld now held by %d", id, (long long)obj, O[obj].holders); t.in_churn = d > 0; if (d < 0) t.op = -1;
    if (t.kind == 4) { t.ended = true; alive[t.tid]--; }
}
}
static void blocking(u64 deadline) {
    int me = cur_thread();
    for (size_t i = 0; i < T.size(); i++) {
        Task &t = T[i]; if (!t.started || t.ended || t.tid != me) continue;
        if (t.op == SLEEP && t.a > 0) { u64 lb = late_bound(t, t.a); if (C15 && deadline > lb && deadline > now_ns() + 2 * MS) violate("C15:oversleep", "task %zu on thread %d asked to sleep %lld ms at %.3f ms; its thread now (%.3f ms) waits until %s", i, me, (long long)t.a, t.t0 / 1e6, now_ns() / 1e6, deadline == ~0ull ? "something else happens" : std::to_string(deadline / 1e6).c_str()); }
        if (t.op == RD || t.op == WR) {
            bool rdy = t.op == RD ? fd_readable(t.a) : fd_writable(t.a);
            if (C15 && rdy) violate("C15:missed", "task %zu on thread %d waits for descriptor %lld, which is ready, but its thread goes to sleep", i, me, (long long)t.a);
            u64 lb = late_bound(t, t.b); if (C15 && deadline > lb && deadline > now_ns() + 2 * MS) violate("C15:late-timeout", "task %zu on thread %d waits on a descriptor with a timeout of %lld ms since %.3f ms; its thread now (%.3f ms) waits until %s", i, me, (long long)t.b, t.t0 / 1e6, now_ns() / 1e6, deadline == ~0ull ? "something else happens" : std::to_string(deadline / 1e6).c_str());
        }
        if (C15 && (t.op == YIELD || t.op == DEEP || t.op == SPAWN || t.op == LAUNCH)) violate("C15:lost", "task %zu on thread %d can go on but its thread goes to sleep", i, me);
    }
}
static void setup() {
    C14 = opt("prop") == "C14"; C15 = opt("prop") == "C15"; track_blocks = true;
    max_tasks = range(4, 40, "max_tasks"); max_threads = 2 + choose(7, "max_threads");
    if (coin(300, "stalls")) { sysf.stall_permille = range(1, 20, "stall_pm"); sysf.stall_max = range(1, 30, "stall_max") * MS; }
    if (coin(200, "eintr")) sysf.epoll_eintr_permille = range(1, 150, "eintr_pm");
    if (coin(250, "thread-faults")) sysf.thread_fail_permille = range(50, 500, "tf");
    if (coin(150, "nomem")) { sysf.native_alloc_fail_permille = range(20, 400, "nomem_pm"); } if (coin(100, "drill")) { drill = range(5, 12, "drill_n"); drill_pm = sysf.thread_fail_permille; drill_mem = sysf.native_alloc_fail_permille; }
    on_no_memory = [] { refused_now(); };
    static const unsigned pre[] = {0, 5, 50, 200, 500}, gap[] = {0, 4000, 400, 40, 10};
    set_preempt(pre[choose(5, "preempt_pm")]); if (opt("variant") == "tsan") set_access_gap(gap[choose(5, "gap")]);
    on_block = blocking; T.push_back(Task()); T[0].exists = true; T[0].left = range(1, 12, "ops"); T[0].seed = 7777;
}
static void final_check() {
    for (size_t i = 0; i < T.size(); i++) { Task &t = T[i]; if (C15 && t.kind == 1 && t.launched && t.ran != 1) violate("C15:not-run", "the work of task %zu was launched and ran %d times", i, t.ran); if (C15 && t.kind == 1 && t.ran && t.checks != 5) violate("C15:not-run", "the work of task %zu was not run to its end", i); }
    for (auto &o : O) if (C14 && o.second.block) { if (!o.second.dead) violate("C14:not-destroyed", "nothing holds object %lld any more but it was never destroyed", (long long)o.first); if (block_at(o.second.at) == o.second.block) violate("C14:not-freed", "object %lld was destroyed but its memory was never given back", (long long)o.first); }
    finish();
}
static void idle() {
    if (C15) for (size_t i = 0; i < T.size(); i++) { Task &t = T[i]; if (t.exists && t.kind == 1 && t.launched && !t.ran) violate("C15:not-run", "the launched work of task %zu never ran and nothing will happen any more", i); }
    std::string s; for (size_t i = 0; i < T.size(); i++) if (T[i].started && !T[i].ended) s += " " + std::to_string(i) + ":op" + std::to_string(T[i].op);
    violate(C14 ? "C14:stuck" : "C15:stuck", "nothing can happen any more but tasks have not ended:%s", s.c_str());
}
static void exited(int) { if (done_) final_check(); violate(C14 ? "C14:exit" : "C15:exit", "the program ended before its work was done"); }
namespace sim { Harness harness = {"thr", setup, idle, exited}; const char *hx_prop = "C15"; }
