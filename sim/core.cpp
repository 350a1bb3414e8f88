// simkit core: decisions, trace, virtual time, thread baton, run driver, minimiser.
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <time.h>
#include <algorithm>
#include <queue>

namespace sim {
// ---------------------------------------------------------------- shared result of one run
constexpr u32 MAXC = 1u << 19, MAXCNT = 256, MAXST = 8192; constexpr size_t MAXTR = 8u << 20;
struct Shm {
    int status;  // 0 died, 1 ok, 2 violation, 3 out of budget
    char cls[96]; char msg[4096]; u64 hash, sim_ns, calls; u32 nchoices; u32 choices[MAXC]; u32 bounds[MAXC];
    u32 ncnt; struct { char name[48]; u64 n; } cnt[MAXCNT];
    u32 nst; u64 st[MAXST];
    size_t trlen; bool trfull; char tr[MAXTR];
};
static Shm *R;
static bool tracing = false;
bool replaying = false;
static const u32 *rp_vals; static u32 rp_n, rp_i;
static u64 prng_s[4];
static std::map<std::string, std::string> opts;
std::string last_stderr, stdout_log;
u64 max_calls = 400000;
const char *livelock_class = "livelock";

static u64 splitmix(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 prng() { u64 *s = prng_s, r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
const std::string &opt(const char *k) { return opts[k]; }

bool in_child = false;
u64 choose(u64 n, const char *tag) {
    if (n <= 1 || in_child) return 0;
    u64 v;
    if (replaying) v = rp_i < rp_n ? rp_vals[rp_i++] : 0; else v = prng();
    v = replaying ? (v < n ? v : n - 1) : (u64)(((unsigned __int128)v * n) >> 64);
    if (R->nchoices >= MAXC) { R->status = 3; snprintf(R->cls, sizeof R->cls, "cap:choices"); _exit(0); }
    R->bounds[R->nchoices] = n > 0xffffffffull ? 0xffffffffu : (u32)n;
    R->choices[R->nchoices++] = (u32)v;
    (void)tag;
    return v;
}
bool coin(unsigned permille, const char *tag) { if (!permille) return false; return choose(1000, tag) >= 1000 - permille; }
static u64 ent_state; static bool ent_init = false;
u64 entropy() { if (!ent_init) { ent_init = true; ent_state = choose(1u << 31, "entropy"); } return splitmix(ent_state); }

// ---------------------------------------------------------------- trace
static void trace_line(const char *b, int n) {
    if (R->trlen + n + 2 < MAXTR) { memcpy(R->tr + R->trlen, b, n); R->trlen += n; R->tr[R->trlen++] = '\n'; } else R->trfull = true;
}
void ev(const char *fmt, ...) {
    char b[600]; int o = 0;
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b + o, sizeof b - o, fmt, ap); va_end(ap);
    if (n < 0) n = 0; if (n >= (int)sizeof b - o) n = sizeof b - o - 1; n += o;
    u64 h = R->hash; for (int i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 0x100000001b3ull;
    R->hash = mix(h, now_ns());
    if (tracing) { char c[700]; int m = snprintf(c, sizeof c, "%12.6f ms T%d %s", now_ns() / 1e6, cur_thread(), b); if (m >= (int)sizeof c) m = sizeof c - 1; trace_line(c, m); }
}
static void fold_counts();
void violate(const char *cls, const char *fmt, ...) {
    if (R->status == 0) {
        char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        snprintf(R->cls, sizeof R->cls, "%s", cls); snprintf(R->msg, sizeof R->msg, "%s", b);
        ev("VIOLATION %s: %s", cls, b);
        R->status = 2; R->sim_ns = now_ns(); fold_counts();
    }
    _exit(1);
}
void finish() { R->status = 1; R->sim_ns = now_ns(); ev("end of run"); fold_counts(); _exit(0); }
static std::map<std::string, u64> cnts;
void count(const char *name, u64 n) { cnts[name] += n; }
void fault(const char *name) { cnts[std::string("fault:") + name]++; }
static void fold_counts() { R->calls = sim_calls(); for (auto &c : cnts) if (R->ncnt < MAXCNT) { snprintf(R->cnt[R->ncnt].name, 48, "%s", c.first.c_str()); R->cnt[R->ncnt++].n = c.second; } }
void state_mark(u64 h) { if (R->nst < MAXST) R->st[R->nst++] = h; }

// ---------------------------------------------------------------- time
struct Ev { u64 t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<Ev> evq; static u64 evseq = 0, now_ = 5000 * SEC + 123456789; static i64 wall_off = 1700000000ll * (i64)SEC;
static u64 calls_ = 0;
static u64 t0_ = now_;
u64 now_ns() { return now_ - t0_; }
u64 mono_abs() { return now_; }
i64 wall_ns() { return (i64)now_ + wall_off; }
void step_wall(i64 d) { wall_off += d; ev("wall clock stepped by %lld ms", (long long)(d / 1000000)); }
void at(u64 t, std::function<void()> fn) { evq.push_back({std::max(t, now_ns()), evseq++, std::move(fn)}); std::push_heap(evq.begin(), evq.end(), EvCmp()); }
bool events_pending() { return !evq.empty(); }
u64 next_event() { return evq.empty() ? ~0ull : evq.front().t; }
void run_one_event() {
    std::pop_heap(evq.begin(), evq.end(), EvCmp()); Ev e = std::move(evq.back()); evq.pop_back();
    if (e.t > now_ns()) now_ = t0_ + e.t;
    e.fn();
}
void advance_to(u64 t) { while (!evq.empty() && evq.front().t <= t) run_one_event(); if (t > now_ns()) now_ = t0_ + t; }
u64 sim_calls() { return calls_; }
static u64 stall_ = 0; u64 stall_total() { return stall_; }
void tick(const char *name) {
    calls_++; now_ += US; if (in_child) return;
    if (calls_ > max_calls) violate(livelock_class, "the program made %llu system calls in one run without finishing; last was %s", (unsigned long long)calls_, name);
    if (sysf.stall_permille && coin(sysf.stall_permille, "stall")) { u64 d = range(1, sysf.stall_max / US, "stall_us") * US; fault("stall"); stall_ += d; ev("process stalled for %llu us", (unsigned long long)(d / US)); advance_to(now_ns() + d); }
    else advance_to(now_ns());
    preempt(name);
}

// ---------------------------------------------------------------- threads: one runs at a time, the choice is ours
struct Thr { int id; sem_t sem; bool alive = true, blocked = false; std::function<bool()> pred; u64 deadline = ~0ull; pthread_t real; std::function<void*()> body; void *ret = nullptr; bool finished = false, detached = false; };
static std::vector<Thr *> thrs; static __thread Thr *me = nullptr; static Thr *running = nullptr;
int cur_thread() { return me ? me->id : 0; }
int live_threads() { int n = 0; for (auto t : thrs) if (t->alive) n++; return n; }
static unsigned preempt_permille = 0;
void set_preempt(unsigned pm) { preempt_permille = pm; }
static void init_main_thread() { me = new Thr; me->id = 0; sem_init(&me->sem, 0, 0); me->real = pthread_self(); thrs.push_back(me); running = me; }
static bool runnable(Thr *t) { if (!t->alive) return false; if (!t->blocked) return true; return t->deadline <= now_ns() || (t->pred && t->pred()); }
static void switch_to(Thr *t) {
    if (t == me) { running = me; return; }
    running = t; Thr *self = me; sem_post(&t->sem);
    while (sem_wait(&self->sem) != 0) {}
}
// pick who runs next; called by a thread that is blocked, finished or willing to be preempted
static Thr *pick(bool must_switch_possible) {
    (void)must_switch_possible;
    for (;;) {
        Thr *cand[64]; int n = 0;
        if (runnable(me)) cand[n++] = me;          // 0 = stay: simplest
        for (auto t : thrs) if (t != me && n < 64 && runnable(t)) cand[n++] = t;
        if (n) return cand[n > 1 ? choose(n, "thread") : 0];
        u64 d = ~0ull; for (auto t : thrs) if (t->alive && t->blocked) d = std::min(d, t->deadline);
        u64 e = next_event();
        if (e == ~0ull && d == ~0ull) { harness.idle(); if (next_event() == ~0ull) violate("stuck", "no thread can run and nothing is going to happen"); continue; }
        if (e <= d) run_one_event(); else advance_to(d);
        if (++calls_ > max_calls * 4) violate(livelock_class, "simulation does not converge");
    }
}
bool wait_until(std::function<bool()> pred, u64 deadline) {
    if (pred()) return true;
    if (deadline <= now_ns()) return false;
    me->blocked = true; me->pred = pred; me->deadline = deadline;
    Thr *t = pick(true);
    if (t != me) switch_to(t);
    me->blocked = false; bool r = pred(); me->pred = nullptr; me->deadline = ~0ull;
    return r;
}
static int preempt_depth = 0;
void preempt(const char *why) {
    if (!preempt_permille || thrs.size() < 2 || preempt_depth) return;
    if (!coin(preempt_permille, "preempt")) return;
    Thr *cand[64]; int n = 0;
    for (auto t : thrs) if (t != me && n < 64 && runnable(t)) cand[n++] = t;
    if (!n) return;
    Thr *t = cand[n > 1 ? choose(n, "thread") : 0];
    count("preemptions"); ev("preempted at %s -> T%d", why, t->id);
    switch_to(t);
}
// switches between two accesses to memory (builds of the variant "tsan"): the next one happens after a chosen number of accesses
unsigned access_gap = 0; static u64 access_left = 0;
void set_access_gap(unsigned g) { access_gap = g; access_left = g ? 1 + choose(g, "access") : 0; }
void access_point() {
    if (thrs.size() < 2 || --access_left) return;
    Thr *cand[64]; int n = 0;
    for (auto t : thrs) if (t != me && n < 64 && runnable(t)) cand[n++] = t;
    if (n) { Thr *t = cand[n > 1 ? choose(n, "thread") : 0]; count("switches-between-accesses"); ev("switched between two accesses -> T%d", t->id); access_left = 1 + choose(access_gap, "access"); switch_to(t); }
    else access_left = 1 + choose(access_gap, "access");
}
static void *thr_main(void *p) {
    Thr *t = (Thr *)p; me = t;
    static __thread char alt[16384]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    while (sem_wait(&t->sem) != 0) {}
    void *r = nullptr; 
    r = t->body();
    thread_exit_self(r);
    return nullptr;
}
void thread_exit_self(void *r) {
    Thr *t = me; t->ret = r; t->finished = true; t->alive = false; ev("thread %d ends", t->id);
    Thr *n = pick(true); running = n; sem_post(&n->sem);
    for (;;) pause();  // the real thread stays parked until the run's process exits
}
int thread_spawn(std::function<void*()> body) {
    Thr *t = new Thr; t->id = thrs.size(); sem_init(&t->sem, 0, 0); t->body = std::move(body);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4u << 20);
    if (pthread_create(&t->real, &a, thr_main, t) != 0) { R->status = 3; snprintf(R->cls, sizeof R->cls, "cap:threads"); _exit(0); }
    thrs.push_back(t); ev("thread %d created", t->id);
    return t->id;
}
bool thread_finished(int id) { return thrs[id]->finished; }
void *thread_ret(int id) { return thrs[id]->ret; }
int thread_count() { return thrs.size(); }
void yield_thread(const char *why) { if (thrs.size() < 2) return; Thr *t = pick(false); if (t != me) { ev("%s -> T%d", why, t->id); switch_to(t); } }

// ---------------------------------------------------------------- one run
static void on_sig(int s, siginfo_t *si, void *) {
    char cls[64], tail[512]; snprintf(cls, sizeof cls, "crash:%s", s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGXCPU ? "cpu-hang" : "signal");
    snprintf(tail, sizeof tail, "%s", last_stderr.size() > 400 ? last_stderr.c_str() + last_stderr.size() - 400 : last_stderr.c_str());
    (void)si;
    violate(cls, "the program died with signal %d; its last words: %s", s, tail);
}
static void child_setup() {
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
    rlimit rl{20, 22}; setrlimit(RLIMIT_CPU, &rl); rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    alarm(300);
}
extern "C" int cxy_main(int argc, char **argv) __attribute__((weak));
typedef void (*InitFn)(int, char **, char **);
extern "C" InitFn __start_sut_init[] __attribute__((weak)); extern "C" InitFn __stop_sut_init[] __attribute__((weak));
extern "C" InitFn __start_sut_fini[] __attribute__((weak)); extern "C" InitFn __stop_sut_fini[] __attribute__((weak));
void run_sut_fini() { static bool done = false; if (done) return; done = true; for (InitFn *f = __stop_sut_fini; f && f > __start_sut_fini;) (*--f)(0, nullptr, nullptr); }
static void run_child() {
    child_setup(); init_main_thread(); os_init();
    harness.setup();
    static char a0[] = "prog"; static char *av[] = {a0, nullptr};
    for (InitFn *f = __start_sut_init; f && f < __stop_sut_init; f++) (*f)(1, av, environ);
    int rc = cxy_main ? cxy_main(1, av) : 0;
    run_sut_fini(); on_exit_called(rc);
}
void (*child_exits)(int) = nullptr;
void on_exit_called(int rc) { if (in_child) child_exits(rc); ev("program exits with %d", rc); if (harness.exited) harness.exited(rc); finish(); }

static void seed_prng(u64 s) { for (int i = 0; i < 4; i++) prng_s[i] = splitmix(s); }
// returns status
static int do_run() {
    R->status = 0; R->cls[0] = R->msg[0] = 0; R->hash = 0xcbf29ce484222325ull; R->sim_ns = 0; R->calls = 0; R->nchoices = 0; R->ncnt = 0; R->nst = 0; R->trlen = 0; R->trfull = false;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { run_child(); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (R->status == 0) {
        R->status = 2;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { R->status = 4; snprintf(R->cls, sizeof R->cls, "error:wall-hang"); }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { R->status = 4; snprintf(R->cls, sizeof R->cls, "error:killed"); }
        else if (WIFSIGNALED(st)) snprintf(R->cls, sizeof R->cls, "crash:signal%d", WTERMSIG(st));
        else snprintf(R->cls, sizeof R->cls, "crash:exit%d", WEXITSTATUS(st));
        snprintf(R->msg, sizeof R->msg, "the run ended without a verdict");
    }
    return R->status;
}
}  // namespace sim
using namespace sim;
#ifdef SIM_ASAN
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
extern "C" const char *__asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0:allocator_may_return_null=1:exitcode=77:symbolize=0:use_sigaltstack=0:quarantine_size_mb=8:malloc_context_size=0"; }
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
static void asan_cb(const char *rep) {
    std::string s(rep), kind = "memory-error"; size_t p = s.find("AddressSanitizer: "); if (p != std::string::npos) { p += 18; size_t e = s.find_first_of(" \n", p); kind = s.substr(p, e - p); }
    std::string acc; p = s.find("READ of size"); if (p == std::string::npos) p = s.find("WRITE of size"); if (p != std::string::npos) acc = s.substr(p, s.find(" at ", p) - p);
    violate(("asan:" + kind).c_str(), "invalid memory access by the program: %s %s", kind.c_str(), acc.c_str());
}
#endif
static std::string json_str(const char *s) { std::string o = "\""; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static double wall_now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Rec { std::string cls, msg, trace; u64 hash; std::vector<u32> ch; };
static Rec snap() { Rec r; r.cls = R->cls; r.msg = R->msg; r.hash = R->hash; r.ch.assign(R->choices, R->choices + R->nchoices); r.trace.assign(R->tr, R->trlen); return r; }
static int replay(const std::vector<u32> &v) { replaying = true; rp_vals = v.data(); rp_n = v.size(); rp_i = 0; int s = do_run(); replaying = false; return s; }
static void write_replay(const char *path, const Rec &r) {
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    fprintf(f, "# simkit replay: re-run with  <harness> --replay <this file> --trace\nharness %s\n", harness.name);
    for (auto &o : opts) fprintf(f, "opt %s %s\n", o.first.c_str(), o.second.c_str());
    fprintf(f, "class %s\nhash %016llx\nmessage %s\n", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
    fprintf(f, "choices %zu", r.ch.size()); for (size_t i = 0; i < r.ch.size(); i++) fprintf(f, "%s%u", i % 32 ? " " : "\n", r.ch[i]);
    fprintf(f, "\nend\n# schedule and fault trace of this run\n");
    size_t p = 0; while (p < r.trace.size()) { size_t e = r.trace.find('\n', p); fprintf(f, "# %.*s\n", (int)(e - p), r.trace.c_str() + p); p = e + 1; }
    fclose(f);
}
static Rec read_replay(const char *path) {
    Rec r; FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char a[64], b[256]; unsigned long long h; size_t n;
        if (sscanf(line, "opt %63s %255s", a, b) == 2) opts[a] = b;
        else if (sscanf(line, "class %255s", b) == 1) r.cls = b;
        else if (sscanf(line, "hash %llx", &h) == 1) r.hash = h;
        else if (sscanf(line, "choices %zu", &n) == 1) { for (size_t i = 0; i < n; i++) { unsigned v; if (fscanf(f, "%u", &v) != 1) break; r.ch.push_back(v); } }
        else if (!strncmp(line, "end", 3)) break;
    }
    free(line); fclose(f); return r;
}
// Minimise while the same violation class persists: truncate, delete blocks, zero blocks, lower values.
static Rec shrink(Rec best, double secs, int *tries) {
    double end = wall_now() + secs; *tries = 0;
    std::vector<u32> cur = best.ch;
    auto attempt = [&](const std::vector<u32> &v) -> bool {
        if (wall_now() > end) return false;
        ++*tries;
        if (replay(v) == 2 && best.cls == R->cls) {
            std::vector<u32> used(R->choices, R->choices + R->nchoices);
            while (!used.empty() && used.back() == 0) used.pop_back();
            std::vector<u32> vv = v; while (!vv.empty() && vv.back() == 0) vv.pop_back();
            if (used.size() < vv.size()) vv = used;
            cur = vv; return true;
        }
        return false;
    };
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    bool progress = true;
    while (progress && wall_now() < end) {
        progress = false;
        for (size_t n = cur.size() / 2; n >= 1 && wall_now() < end; n /= 2) { // truncate
            if (n < cur.size()) { auto v = cur; v.resize(cur.size() - n); if (attempt(v)) progress = true; }
        }
        for (size_t blk = 64; blk >= 1; blk /= 2) for (size_t i = 0; i + 1 <= cur.size() && wall_now() < end;) { // delete blocks
            auto v = cur; v.erase(v.begin() + i, v.begin() + std::min(i + blk, v.size()));
            if (attempt(v)) progress = true; else i += blk;
        }
        for (size_t blk = 32; blk >= 1; blk /= 2) for (size_t i = 0; i < cur.size() && wall_now() < end; i += blk) { // zero blocks
            auto v = cur; bool ch = false; for (size_t k = i; k < std::min(i + blk, v.size()); k++) if (v[k]) { v[k] = 0; ch = true; }
            if (ch && attempt(v)) progress = true;
        }
        for (size_t i = 0; i < cur.size() && wall_now() < end; i++) { // lower values
            while (i < cur.size() && cur[i] > 1) { auto v = cur; v[i] = cur[i] / 2; if (attempt(v)) progress = true; else { v = cur; v[i]--; if (i < v.size() && attempt(v)) progress = true; else break; } if (wall_now() > end) break; }
        }
    }
    tracing = true; int s = replay(cur); Rec out = snap(); tracing = false;
    if (s != 2 || out.cls != best.cls) return best;
    out.ch = cur; return out;
}

int main(int argc, char **argv) {
    if (!getenv("SIM_NO_ASLR_TRIED")) { setenv("SIM_NO_ASLR_TRIED", "1", 1); int p = personality(0xffffffff); if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
    u64 seed = 1, first = 0, n = 100; double deadline = 1e9, ssecs = 20; const char *rfile = nullptr, *sfile = nullptr, *outp = nullptr; bool dump = false; const char *viol_dir = nullptr; bool hashes = false; int keep = 3; std::set<std::string> knowns;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--seed") seed = strtoull(nx(), 0, 0); else if (a == "--first") first = strtoull(nx(), 0, 0); else if (a == "--count") n = strtoull(nx(), 0, 0);
        else if (a == "--deadline") deadline = atof(nx()); else if (a == "--replay") rfile = nx(); else if (a == "--shrink") sfile = nx(); else if (a == "--out") outp = nx();
        else if (a == "--secs") ssecs = atof(nx()); else if (a == "--trace") dump = true; else if (a == "--viol") viol_dir = nx(); else if (a == "--hashes") hashes = true; else if (a == "--keep") keep = atoi(nx());
        else if (a == "--known") knowns.insert(nx());
        else if (a == "--opt") { std::string kv = nx(); size_t e = kv.find('='); opts[kv.substr(0, e)] = e == std::string::npos ? "1" : kv.substr(e + 1); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    R = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#ifdef HAVE_ASAN
    __asan_set_error_report_callback(asan_cb);
#endif
    signal(SIGPIPE, SIG_IGN);
    if (rfile) {
        Rec r = read_replay(rfile); tracing = true; int s = replay(r.ch);
        if (dump) fwrite(R->tr, 1, R->trlen, stdout);
        printf("status %d class %s hash %016llx message %s\n", s, R->cls, (unsigned long long)R->hash, R->msg);
        bool same = s == 2 && r.cls == R->cls && (r.hash == 0 || r.hash == R->hash);
        printf("%s\n", same ? "REPRODUCED" : "DIFFERENT");
        if (outp) { Rec o = snap(); write_replay(outp, o); }
        return same ? 1 : 0;
    }
    if (sfile) {
        Rec r = read_replay(sfile); int tries = 0; Rec m = shrink(r, ssecs, &tries);
        write_replay(outp, m); printf("shrunk %zu -> %zu choices in %d tries\n", r.ch.size(), m.ch.size(), tries); return 0;
    }
    double t0 = wall_now(), end = t0 + deadline; u64 runs = 0, viols = 0, caps = 0, errs = 0, simns = 0, calls = 0, nch = 0; std::set<u64> uniq; std::set<u64> states; std::map<std::string, u64> tot, runs_with; std::map<std::string, int> classes; std::string vout, errcls;
    std::string samples; int nsamp = 0;
    for (u64 i = 0; i < n && wall_now() < end; i++) {
        u64 s = mix(mix(0x5eed, seed), first + i); for (auto &o : opts) for (char c : o.first + "=" + o.second) s = mix(s, (unsigned char)c);
        seed_prng(s); bool sample = i < 1; tracing = dump || sample;
        int st = do_run(); runs++; tracing = false;
        if (hashes) printf("H %llu %016llx %d\n", (unsigned long long)(first + i), (unsigned long long)R->hash, st);
        if (dump) fwrite(R->tr, 1, R->trlen, stdout);
        uniq.insert(R->hash); for (u32 k = 0; k < R->nst; k++) states.insert(R->st[k]);
        simns += R->sim_ns; calls += R->calls; nch += R->nchoices;
        for (u32 k = 0; k < R->ncnt; k++) { tot[R->cnt[k].name] += R->cnt[k].n; runs_with[R->cnt[k].name]++; }
        if (st == 3) caps++;
        if (st == 4) { errs++; errcls = R->cls; }
        if (sample && nsamp < 2) { nsamp++; std::string tr(R->tr, std::min<size_t>(R->trlen, 1800)); samples += (samples.empty() ? "" : ",") + std::string("{\"run\":") + std::to_string(first + i) + ",\"trace_head\":" + json_str(tr.c_str()) + "}"; }
        if (st == 2) {
            viols++; int &c = classes[R->cls];
            if (c++ < 1 && viol_dir) {
                Rec r = snap(); Rec a = r;
                // gate 1: the same PRNG again gives the same run
                seed_prng(s); do_run(); bool same = R->status == 2 && a.cls == R->cls && a.hash == R->hash;
                tracing = true; int rs = replay(r.ch); Rec t = snap(); tracing = false; bool rep = rs == 2 && t.cls == a.cls;
                char path[512]; snprintf(path, sizeof path, "%s/v-%llu-%llu.replay", viol_dir, (unsigned long long)first, (unsigned long long)(first + i));
                if (rep) { t.ch = r.ch; write_replay(path, t); } else write_replay(path, a);
                vout += (vout.empty() ? "" : ",") + std::string("{\"run\":") + std::to_string(first + i) + ",\"class\":" + json_str(a.cls.c_str()) + ",\"msg\":" + json_str(a.msg.c_str()) + ",\"file\":" + json_str(path) + ",\"same\":" + (same ? "true" : "false") + ",\"replays\":" + (rep ? "true" : "false") + "}";
            }
            int fresh = 0, nfresh = 0; for (auto &c : classes) if (!knowns.count(c.first)) { fresh++; nfresh += c.second; }
            if (fresh >= keep || nfresh > 40) break;
        }
    }
    printf("{\"runs\":%llu,\"violations\":%llu,\"caps\":%llu,\"errors\":%llu,\"errcls\":%s,\"sim_s\":%.6f,\"calls\":%llu,\"choices\":%llu,\"wall_s\":%.3f,\"unique\":[", (unsigned long long)runs, (unsigned long long)viols, (unsigned long long)caps, (unsigned long long)errs, json_str(errcls.c_str()).c_str(), simns / 1e9, (unsigned long long)calls, (unsigned long long)nch, wall_now() - t0);
    bool f1 = true; for (u64 h : uniq) { printf("%s\"%llx\"", f1 ? "" : ",", (unsigned long long)h); f1 = false; }
    printf("],\"states\":["); f1 = true; size_t ns = 0; for (u64 h : states) { if (ns++ > 60000) break; printf("%s\"%llx\"", f1 ? "" : ",", (unsigned long long)h); f1 = false; }
    printf("],\"counts\":{"); f1 = true; for (auto &c : tot) { printf("%s%s:[%llu,%llu]", f1 ? "" : ",", json_str(c.first.c_str()).c_str(), (unsigned long long)c.second, (unsigned long long)runs_with[c.first]); f1 = false; }
    printf("},\"classes\":{"); f1 = true; for (auto &c : classes) { printf("%s%s:%d", f1 ? "" : ",", json_str(c.first.c_str()).c_str(), c.second); f1 = false; }
    printf("},\"viol\":[%s],\"samples\":[%s]}\n", vout.c_str(), samples.c_str());
    return 0;
}
