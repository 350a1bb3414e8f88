// Event loop, tasks, descriptor waits and the task mutex (C01-C04): the scenario and its oracles.
#include "sim.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <algorithm>
using namespace sim;

enum Op { END = 0, SLEEP = 1, YIELD = 2, RD = 3, WR = 4, SPAWN = 5, LOCK = 6, DEEP = 7, UNLOCK = 8, TRY = 9 };
enum { READABLE = 1, WRITABLE = 2, TIMEOUT = 4 };
static bool C01, C02, C03, C04;

struct Fd { int fd = -1; int kind = 0; EpP peer; bool busy = false; int gen = 0; };
struct Task {
    bool started = false, ended = false, exists = false; int parent = -1;
    int op = -1; i64 a = 0, b = 0; u64 t0 = 0; u64 stall0 = 0; u64 back0 = 0; int left = 0; i64 seed = 0; u64 ticket = 0;
    std::vector<int> held; int fdi = -1; u64 due_switch = 0; bool due_seen = false; int ops_done = 0; u64 wall_steps0 = 0, watch0 = 0; bool is_yielding = false; bool spawn_only = false;
};
static std::vector<Task> T; static std::vector<Fd> F;
static u64 tickets = 0, back_total = 0, step_count = 0, switches = 0, last_step_at = 0; static int alive = 0, peak = 0, max_tasks; static i64 base_maps = -1;
static unsigned w[10]; static int scale; static bool long_waits; static int hogs, hogger, hog_left, storm; static int waves, wave_n, wave_k, wave_life; static bool mutex_sane = true;
struct Mx { int holder = -1; std::deque<int> q; };
static Mx M[3];
static i64 dur(); static unsigned high_fds;

static void peer_action(int i);
static void open_fd(int i) {
    Fd &f = F[i]; f.gen++; f.kind = choose(4, "fdkind");
    NetProfile p; p.lat_min = 5 * US; p.lat_max = range(5, 3000, "lat") * US; p.seg_mode = choose(3, "seg");
    NetProfile q = p; size_t cap = choose(3, "cap") == 0 ? 65536 : range(1, 64, "capn");
    if (f.kind == 0) f.fd = sut_socketpair_fd(&f.peer, 65536, cap, p, q);
    else if (f.kind == 1) { f.fd = sut_pipe_read_fd(&f.peer, 65536); f.peer->prof = q; }
    else if (f.kind == 2) f.fd = sut_pipe_write_fd(&f.peer, cap);
    else { f.fd = sut_socketpair_fd(&f.peer, 65536, cap, p, q); }
    if (high_fds && coin(high_fds, "high")) { int to = 900 + (int)choose(300, "high_fd"); if (fd_move(f.fd, to)) f.fd = to; count("high_descriptors"); }
    if (f.kind != 1 && coin(600, "fillup")) { // make it unwritable at first
        EpP e = endpoint_of(f.fd); e->peer.lock()->inflight += e->tx_space();
        f.peer->hole = e->peer.lock()->inflight; }
    ev("descriptor %d opened (kind %d)", f.fd, f.kind);
    int n = range(0, 3, "peer_events"); for (int k = 0; k < n; k++) { int gen = f.gen; after(range(1, 40 * scale, "peer_at") * 500 * US, [i, gen] { if (F[i].gen == gen) peer_action(i); }); }
}
static void peer_action(int i) {
    Fd &f = F[i]; if (!f.peer || f.peer->closed) return;
    switch (choose(6, "peer_act")) {
    case 0: case 1: if (f.kind != 2) { size_t n = f.peer->send(std::string(range(1, 40, "peer_n"), 'x')); if (n) count("peer_sends"); } else if (f.peer->hole) { f.peer->inflight -= f.peer->hole; f.peer->hole = 0; count("peer_reads"); } break;
    case 2: case 3: if (f.kind != 1 && f.peer->hole) { ev("peer of %d reads", f.fd); f.peer->inflight -= f.peer->hole; f.peer->hole = 0; count("peer_reads"); } f.peer->take(); break;
    case 4: ev("peer of %d closes", f.fd); fault("peer_close"); f.peer->close_(); break;
    case 5: if (f.kind == 1 || f.kind == 2) { ev("peer of %d closes", f.fd); fault("peer_close"); f.peer->close_(); } else { ev("peer of %d resets", f.fd); fault("peer_reset"); f.peer->reset(); } break;
    }
}
static void drain(int fd) { EpP e = endpoint_of(fd); if (e && !e->rx.empty()) { ev("task reads %zu bytes from %d", e->rx.size(), fd); e->take(); } }
static void refill(int i) { Fd &f = F[i]; EpP e = endpoint_of(f.fd); if (!e || !f.peer || f.peer->closed) return; size_t s = e->tx_space(); if (s) { f.peer->inflight += s; f.peer->hole += s; ev("task fills %d", f.fd); } }

// the time by which a wait of ms that began at t0 has to be over, given what the environment did meanwhile
static u64 late_bound(const Task &t, u64 ms) { return t.t0 + ms * MS + 2 * MS + (stall_total() - t.stall0) + (back_total - t.back0); }

static void blocking(u64 deadline) { // the program is about to wait although it might have something to do
    for (size_t i = 0; i < T.size(); i++) {
        Task &t = T[i]; if (!t.started || t.ended) continue;
        if (t.op == SLEEP && t.a > 0) { u64 lb = late_bound(t, t.a); if (C01 && deadline > lb && deadline > now_ns() + MS) violate("C01:oversleep", "task %zu asked to sleep %lld ms at %.3f ms; the program now (%.3f ms) waits until %s, later than %.3f ms", i, (long long)t.a, t.t0 / 1e6, now_ns() / 1e6, deadline == ~0ull ? "something else happens" : std::to_string(deadline / 1e6).c_str(), lb / 1e6); }
        if (t.op == RD || t.op == WR) {
            bool rdy = t.op == RD ? fd_readable(t.a) : fd_writable(t.a);
            if (C02 && rdy) violate("C02:missed", "task %zu waits for descriptor %lld to be %s; it is, but the program goes to sleep", i, (long long)t.a, t.op == RD ? "readable" : "writable");
            if (t.b > 0) { u64 lb = late_bound(t, t.b); if (C02 && deadline > lb && deadline > now_ns() + MS) violate("C02:late-timeout", "task %zu waits on descriptor %lld with a timeout of %lld ms since %.3f ms; the program now (%.3f ms) waits until %s, later than %.3f ms", i, (long long)t.a, (long long)t.b, t.t0 / 1e6, now_ns() / 1e6, deadline == ~0ull ? "something else happens" : std::to_string(deadline / 1e6).c_str(), lb / 1e6); }
        }
        if (C03 && t.op == YIELD) violate("C03:lost", "task %zu yielded and is not continued although the program is idle", i);
        if (C03 && t.op == DEEP) violate("C03:lost", "task %zu yielded and is not continued although the program is idle", i);
        if (C03 && t.op == SPAWN) violate("C03:lost", "task %zu started another task and is not continued although the program is idle", i);
        if (C04 && (t.op == LOCK) && M[t.a].holder == (int)i) violate("C04:stuck", "task %zu was handed mutex %lld but is not continued although the program is idle", i, (long long)t.a);
    }
    for (auto &t : T) if (C03 && t.exists && !t.started) violate("C03:lost", "a task that was started never ran");
}
static void starvation_check() {
    if (!C03) return;
    for (size_t i = 0; i < T.size(); i++) {
        Task &t = T[i]; if (!t.started || t.ended) continue; bool due = false;
        if (t.op == SLEEP && t.a > 0) due = now_ns() > late_bound(t, t.a);
        if (t.op == RD) due = fd_readable(t.a) || (t.b > 0 && now_ns() > late_bound(t, t.b));
        if (t.op == WR) due = fd_writable(t.a) || (t.b > 0 && now_ns() > late_bound(t, t.b));
        if (!due) { t.due_seen = false; continue; }
        if (!t.due_seen) { t.due_seen = true; t.due_switch = switches; }
        if (switches - t.due_switch > 1000 + 8 * T.size()) violate("C03:starved", "what task %zu waits for happened, but %llu task switches later it has not continued", i, (unsigned long long)(switches - t.due_switch));
    }
}
static i64 dur() { switch (choose(5, "dur_kind")) { case 0: return (i64)range(1, 5, "d") ; case 1: return (i64)range(1, 30 * scale, "d"); case 2: return (i64)choose(4, "d") * 10; case 3: return long_waits ? (i64)range(100, 5000, "d") : (i64)range(1, 12, "d"); default: return -(i64)choose(3, "d"); } }
static int free_fd() { std::vector<int> v; for (size_t i = 0; i < F.size(); i++) if (!F[i].busy && F[i].fd >= 0) v.push_back(i); return v.empty() ? -1 : v[choose(v.size(), "fd")]; }

static void setup() {
    const std::string &p = opt("prop"); C01 = p == "C01" || p.empty(); C02 = p == "C02" || p.empty(); C03 = p == "C03" || p.empty(); C04 = p == "C04" || p.empty();
    max_calls = 150000; livelock_class = p == "C01" ? "C01:livelock" : p == "C02" ? "C02:livelock" : "livelock";
    on_block = blocking;
    for (int i = 1; i < 10; i++) w[i] = choose(4, "weight");
    w[END] = 1; w[UNLOCK] = 6;
    if (C01 && !C02) { w[SLEEP] += 3; } if (C02 && !C01) { w[RD] += 3; w[WR] += 3; } if (C04 && !C01) { w[LOCK] += 5; w[TRY] += 2; } if (C03 && !C01) { w[SPAWN] += 2; w[YIELD] += 2; }
    scale = (int)range(1, 4, "scale"); long_waits = coin(200, "long");
    max_tasks = choose(6, "many") == 1 ? (int)range(20, 90, "tasks") : (int)range(1, 12, "tasks");
    if (coin(300, "stalls")) { sysf.stall_permille = (unsigned)range(1, 20, "stall_pm"); sysf.stall_max = range(1, 30, "stall_max") * MS; }
    if (coin(250, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 300, "eintr_pm");
    if (C01 && coin(200, "steps")) { int n = (int)range(1, 4, "nsteps"); for (int i = 0; i < n; i++) at(range(1, 200, "step_at") * MS, [] {
        static const i64 sz[] = {50, 999, 1000, 1500, 5000, 3600000}; i64 d = sz[choose(6, "step_size")]; bool back = choose(2, "step_back"); fault(back ? "clock_step_back" : "clock_step_forward"); step_count++; last_step_at = now_ns();
        if (back) { back_total += d * MS; step_wall(-d * (i64)MS); } else step_wall(d * (i64)MS); }); }
    if (C02 && coin(120, "watchfail")) sysf.epoll_ctl_fail_permille = (unsigned)range(20, 400, "watch_pm"); if ((C02 || C03) && coin(120, "highs")) high_fds = (unsigned)range(100, 800, "high_pm");
    int nf = (int)range(0, 6, "nfds"); if (C02 && nf == 0) nf = 2; F.resize(nf); for (int i = 0; i < nf; i++) open_fd(i);
    T.reserve(4096); T.resize(1); T[0].exists = true; T[0].left = (int)range(2, 25, "ops"); alive = peak = 1; T[0].seed = 7777;
    if (C03 && coin(120, "waves")) { waves = (int)range(2, 12, "waves"); wave_n = (int)range(20, 70, "wave_n"); wave_life = (int)range(1, 6, "wave_life"); T[0].left = 2; max_calls = 400000; }
    else if (C03 && coin(250, "hog")) { hogs = (int)range(200, 6000, "hog_yields"); hogger = (int)choose(2, "hogger"); hog_left = (int)choose(6, "hog_left"); if (coin(400, "storm")) storm = hogs; w[SPAWN] += 3; T[0].left += 4; }
}
static bool all_done() { for (auto &t : T) if (t.exists && !t.ended) return false; return true; }
static void idle() {
    // nothing will ever happen again; blocking() has already looked at every waiting task with deadline = never
    for (size_t i = 0; i < T.size(); i++) { Task &t = T[i]; if (!t.exists || t.ended) continue;
        if (t.op == SLEEP && t.a > 0 && C01) violate("C01:never", "task %zu asked to sleep %lld ms and never wakes", i, (long long)t.a);
        if ((t.op == RD || t.op == WR) && t.b > 0 && C02) violate("C02:never", "task %zu waits on descriptor %lld with timeout %lld ms and is never resumed", i, (long long)t.a, (long long)t.b); }
    count("runs_completed"); finish();
}
static void exited(int) { // main returned: only allowed when its script says so
    if (!T[0].ended && C03) violate("C03:exit", "the program ended while tasks were still running"); finish(); }
Harness sim::harness = {"ev", setup, idle, exited};

static void mark() { u64 h = 1; for (auto &t : T) h = mix(h, t.ended ? 99 : t.exists ? t.op + 2 : 0); for (auto &m : M) h = mix(h, m.holder * 31 + m.q.size()); for (auto &f : F) h = mix(h, (fd_readable(f.fd) ? 1 : 0) + (fd_writable(f.fd) ? 2 : 0)); state_mark(h); }
static void check_maps() { if (C03) { i64 lim = peak + 2; if (live_maps() > lim) violate("C03:stacks", "%lld stacks are mapped although at most %d tasks were alive at one time", (long long)live_maps(), peak); } }

extern "C" {
void hx_start(int id, i64 seed) {
    ev("task %d runs for the first time", id);
    if (id < 0 || id >= (int)T.size() || !T[id].exists) { if (C03) violate("C03:phantom", "a task %d runs that nobody started", id); finish(); }
    if (C03 && T[id].started) violate("C03:twice", "task %d is run a second time", id);
    if (C03 && T[id].seed != seed) violate("C03:args", "task %d got argument %lld instead of %lld", id, (long long)seed, (long long)T[id].seed);
    T[id].started = true; switches++; check_maps();
}
void hx_local(int id, int which, i64 v, i64 want) { if (v != want) { if (C03) violate("C03:locals", "local %d of task %d holds %lld instead of %lld after a switch", which, id, (long long)v, (long long)want); } }
void hx_name(int, const void *) {}
int hx_next(int id) {
    Task &t = T[id]; starvation_check(); mark();
    if (t.ended) { if (C03) violate("C03:twice", "task %d continues after it ended", id); finish(); }
    if (t.op > 0) { if (C03) violate("C03:corrupt", "task %d continues without its operation %d having returned", id, t.op); finish(); }
    advance_to(now_ns() + choose(3, "compute") * 7 * US);
    if (coin(15, "burn")) { u64 d = range(1, 20, "burn_ms") * MS; ev("task %d computes for %llu ms", id, (unsigned long long)(d / MS)); advance_to(now_ns() + d); for (auto &x : T) if (x.started && !x.ended) x.stall0 -= d; }
    if (id == hogger && hogs > 0 && t.left <= hog_left) { hogs--; t.op = YIELD; t.ticket = ++tickets; t.is_yielding = true; t.t0 = now_ns(); if (hogs % 64 == 0) ev("task %d keeps yielding", id); if (hogs % 16 == 0) advance_to(now_ns() + 200 * US); return YIELD; }
    if (storm > 0 && hogs > 0 && id == 1 - hogger && t.left <= hog_left) { // waits again and again for a descriptor that is always ready
        static int always = -1; static EpP src; if (always < 0) { always = sut_pipe_read_fd(&src, 16); endpoint_of(always)->rx = "x"; }
        storm--; t.op = RD; t.a = always; t.b = storm % 3 == 0 ? 50 : 0; t.fdi = -1; t.t0 = now_ns(); t.stall0 = stall_total(); t.back0 = back_total; t.due_seen = false; count("storm"); if (storm % 16 == 0) advance_to(now_ns() + 100 * US); return RD; }
    if (id == 0 && waves > 0) { // many short-lived tasks at a time, again and again
        if (wave_k < wave_n) { wave_k++; T.push_back(Task()); Task &c = T.back(); c.exists = true; c.parent = 0; c.left = 1; c.seed = (i64)T.size(); c.spawn_only = true; Task &m = T[0]; m.op = SPAWN; m.a = (i64)T.size() - 1; m.b = c.seed; m.t0 = now_ns(); alive++; peak = std::max(peak, alive); return SPAWN; }
        wave_k = 0; waves--; count("waves"); t.op = SLEEP; t.a = wave_life + 6; t.t0 = now_ns(); t.stall0 = stall_total(); t.back0 = back_total; return SLEEP; }
    if (t.spawn_only && t.left > 0) { t.left = 0; t.op = SLEEP; t.a = 1 + (i64)choose(wave_life, "life"); t.t0 = now_ns(); t.stall0 = stall_total(); t.back0 = back_total; return SLEEP; }
    if (t.left-- <= 0) {
        // leave nothing held
        if (!t.held.empty()) { t.left = 0; t.a = t.held.back(); t.op = UNLOCK; }
        else if (id == 0) { // main: nothing left to do but stay around
            t.op = RD; static int never = -1; static EpP keep; if (never < 0) never = sut_pipe_read_fd(&keep, 16); t.a = never; t.b = 0; t.left = 0; t.t0 = now_ns(); t.stall0 = stall_total(); t.back0 = back_total; t.fdi = -1; ev("main waits for ever"); return RD; }
        else { t.op = END; return 0; }
    } else {
        unsigned tot = 0; unsigned ww[10]; memcpy(ww, w, sizeof ww); ww[END] = id == 0 ? 0 : 1;
        if ((int)T.size() - 1 >= max_tasks) ww[SPAWN] = 0; if (t.held.empty()) ww[UNLOCK] = 0; if (t.held.size() >= 3) ww[LOCK] = ww[TRY] = 0; int ff = -2;
        for (int i = 0; i < 10; i++) tot += ww[i];
        unsigned x = choose(tot, "op"); int op = 0; while (x >= ww[op]) x -= ww[op], op++;
        if ((op == RD || op == WR) && (ff = free_fd()) < 0) op = YIELD;
        if (op == LOCK) { // keep a global order so that the program itself does not deadlock
            int lo = 0; for (int h : t.held) lo = std::max(lo, h + 1); if (lo > 2) op = YIELD; else t.a = lo + (i64)choose(3 - lo, "mutex"); }
        if (op == TRY) t.a = (i64)choose(3, "mutex");
        if (op == UNLOCK) { size_t k = choose(t.held.size(), "which"); t.a = t.held[k]; }
        if (op == SLEEP) t.a = dur();
        if (op == DEEP) t.a = (i64)choose(12, "depth");
        if (op == END && id != 0 && !t.held.empty()) op = YIELD;
        if (op == RD || op == WR) {
            Fd &f = F[ff]; if (coin(150, "reopen")) { ev("descriptor %d is closed and its number reused", f.fd); fd_close(f.fd); f.peer = nullptr; open_fd(ff); count("fd_reused"); }
            if (f.kind == 1) op = RD; if (f.kind == 2) op = WR;
            if (coin(600, "consume")) { if (op == RD) drain(f.fd); else refill(ff); }
            t.fdi = ff; t.a = f.fd; t.b = choose(3, "has_timeout") ? std::max<i64>(dur(), 0) : 0; f.busy = true; }
        t.op = op;
        if (op == SPAWN) { T.push_back(Task()); Task &c = T.back(); c.exists = true; c.parent = id; c.left = (int)range(0, 14, "ops"); c.seed = (i64)range(1, 1000000, "seed"); T[id].a = (i64)T.size() - 1; T[id].b = c.seed; alive++; peak = std::max(peak, alive); }
    }
    Task &u = T[id]; u.t0 = now_ns(); u.stall0 = stall_total(); u.back0 = back_total; u.wall_steps0 = step_count; u.due_seen = false; u.watch0 = watch_faults;
    if (u.op == YIELD || u.op == DEEP) { u.ticket = ++tickets; u.is_yielding = true; }
    if (u.op == LOCK) { Mx &m = M[u.a]; if (m.holder < 0) m.holder = id; else { m.q.push_back(id); count("mutex_contended"); } }
    static const char *nm[] = {"end", "sleep", "yield", "wait-read", "wait-write", "spawn", "lock", "deep", "unlock", "trylock"};
    ev("task %d: %s %lld %lld", id, nm[u.op], (long long)u.a, (long long)u.b); count(nm[u.op]);
    return u.op;
}
i64 hx_a(int id) { return T[id].a; }
i64 hx_b(int id) { return T[id].b; }
void hx_ret(int id, int op, i64 rc) {
    Task &t = T[id]; switches++; ev("task %d: %d returns %lld", id, op, (long long)rc);
    if (t.op != op) { if (C03) violate("C03:corrupt", "task %d continued after operation %d while it was in operation %d", id, op, t.op); finish(); }
    starvation_check();
    u64 el = now_ns() - t.t0;
    switch (op) {
    case SLEEP:
        if (C01 && t.a > 0 && step_count == 0 && el + MS <= (u64)t.a * MS) violate("C01:early", "task %d asked to sleep %lld ms and was woken after %.3f ms", id, (long long)t.a, el / 1e6);
        if (C01 && t.a <= 0 && el > 100 * US + (stall_total() - t.stall0)) violate("C01:zero", "task %d asked to sleep %lld ms and was kept for %.3f ms", id, (long long)t.a, el / 1e6);
        break;
    case YIELD: case DEEP:
        if (C03) for (size_t i = 0; i < T.size(); i++) if (T[i].is_yielding && T[i].ticket < t.ticket) violate("C03:order", "task %d yielded after task %zu but continues before it", id, i);
        t.is_yielding = false; break;
    case RD: case WR: {
        if (t.fdi >= 0) F[t.fdi].busy = false;
        bool rdy = op == RD ? fd_readable(t.a) : fd_writable(t.a); int want = op == RD ? READABLE : WRITABLE;
        if (rc == -1 && (watch_faults != t.watch0 || t.a >= 1024)) { // the system or the loop cannot watch this descriptor: said at once
            count("waits_refused"); if (C02 && el > 200 * US + (stall_total() - t.stall0)) violate("C02:late-refusal", "task %d waits on descriptor %lld, which cannot be watched, and is told so only after %.3f ms", id, (long long)t.a, el / 1e6);
        } else if (rc & TIMEOUT) {
            count("waits_timed_out");
            if (C02 && t.b <= 0) violate("C02:phantom-timeout", "task %d waited on descriptor %lld without a timeout and was told it timed out", id, (long long)t.a);
            if (C02 && step_count == 0 && el + MS <= (u64)t.b * MS) violate("C02:early-timeout", "task %d waited on descriptor %lld with a timeout of %lld ms and was told after %.3f ms that it timed out", id, (long long)t.a, (long long)t.b, el / 1e6);
        } else if (rc == want) { count("waits_ready"); if (C02 && !rdy) violate("C02:false-ready", "task %d was told that descriptor %lld is %s, but it is not", id, (long long)t.a, op == RD ? "readable" : "writable"); }
        else if (C02) violate("C02:result", "waiting on descriptor %lld ended with %lld, neither its readiness nor a timeout", (long long)t.a, (long long)rc);
        break; }
    case LOCK:
        if (C04 && M[t.a].holder != id) violate("C04:exclusion", "task %d acquired mutex %lld while task %d holds it or is next", id, (long long)t.a, M[t.a].holder);
        if (C04 && M[t.a].q.size() && M[t.a].q.front() == id) violate("C04:exclusion", "task %d acquired mutex %lld before its turn", id, (long long)t.a);
        t.held.push_back(t.a); break;
    case UNLOCK: {
        t.held.erase(std::find(t.held.begin(), t.held.end(), (int)t.a)); Mx &m = M[t.a]; m.holder = -1; if (!m.q.empty()) { m.holder = m.q.front(); m.q.pop_front(); count("mutex_handed_over"); } break; }
    case TRY: { Mx &m = M[t.a]; bool fr = m.holder < 0; if (C04 && (rc != 0) != fr) violate(fr ? "C04:try-refused" : "C04:try-granted", "tryLock of %s mutex %lld by task %d %s", fr ? "free" : "held", (long long)t.a, id, rc ? "succeeded" : "failed");
        if (rc) { m.holder = id; t.held.push_back(t.a); } break; }
    case END: if (t.ended && C03) violate("C03:twice", "task %d ends twice", id); t.ended = true; alive--; break;
    case SPAWN: if (C03 && t.a >= 0 && t.a < (i64)T.size() && !T[t.a].started && false) violate("C03:lost", "x"); break;
    }
    t.op = -1; mark(); check_maps();
}
}
