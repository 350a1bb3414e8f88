// Child processes (C12): commands as actors, a model of every child's command, streams, environment and end.
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <csignal>
#include <cstdlib>
#include <algorithm>
using namespace sim;
extern "C" { typedef void (*sighandler)(int); sighandler sim_signal(int, sighandler); extern char **environ; }
#define BAD(cls, ...) violate("C12:" cls, __VA_ARGS__)
enum { STDOUT = 20, STDERR, STDIN, WAITA, WAIT, ISEXITED, SLEEP, YIELD };
static const char *HOW[] = {"", "execvpe", "execvp", "execlp", "execlp with arguments", "execlpe", "capture with environment", "capture", "shell with arguments", "shell", "execute with a slice", "execute with fields", "execute", "execute with an array", "capture with an array"};
static const char *OPN[] = {"reading its output", "reading its errors", "writing to it", "waitAsync", "wait", "isExited", "sleep", "yield"};

struct Job { // one child the program starts
    int no, task, how; std::string s[30]; i64 a[5] = {0}; std::vector<std::string> argv; std::vector<std::pair<std::string, std::string>> env; std::string in, out, err; size_t take_in = 0; int status = 0; bool missing = false, lives_long = false;
    Proc *p = nullptr; int forks = 0; bool execd = false, ended = false, fault = false, sigpiped = false; u64 ended_at = 0;
    size_t so = 0, se = 0; std::string got_in; bool out_closed = false, err_closed = false, in_eof = false, exiting = false;
    std::vector<std::pair<int, i64>> plan; size_t pc = 0; int cur = 0; u64 op_t0 = 0; std::string rd[3]; bool started = false, dropped = false, over = false, waited = false; int fd0 = 0; bool stdin_given = false; u64 f0 = 0;
};
static std::vector<std::unique_ptr<Job>> jobs; static bool EXEC(const Job *j) { return j->how >= 10 && j->how <= 13; }
struct Task { int left = 0; Job *cur = nullptr; bool done = false; i64 nap = 0; }; static std::vector<Task> T; static int ntasks; static int never_fd; static EpP never_peer; static Job *forking; static std::vector<std::string> base_env; static u64 faults_seen = 0; static bool precise; static bool blocked_ok = false;
static std::string word(size_t n, const char *t) { u64 x = 0x9E3779B97F4A7C15ull * (1 + choose(100000, t)); std::string s(n, 0); for (auto &c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_ $'\"%;"[x % 70]; } return s; }
static std::string bytes(size_t n, const char *t) { u64 x = 0x9E3779B97F4A7C15ull * (1 + choose(100000, t)); std::string s(n, 0); for (auto &c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)x; } return s; }
static size_t size_pick(const char *t) { switch (choose(6, t)) { case 0: return 0; case 1: return range(1, 40, t); case 2: return range(1, 5000, t); case 3: return 4090 + choose(8, t); case 4: return range(1, 100000, t); default: return 1; } }
static std::string who(const Job *j) { return "child " + std::to_string(j->no) + " (" + HOW[j->how] + ", task " + std::to_string(j->task) + (j->p ? ", process " + std::to_string(j->p->pid) : "") + ")"; }
#define WHO(j) who(j).c_str()

// ---- what a command does: writes its output and errors, takes its input, ends
static void live(Job *j);
static void soon(Job *j, const char *t) { u64 d = range(1, coin(60, "cslow") ? 30000 : 400, t) * US; after(d, [j] { live(j); }); }
static void leave(Job *j, int status) { if (j->exiting) return; j->exiting = true; proc_end(j->p, status); }
static bool put(Job *j, int k, const std::string &all, size_t &at) { // true when it is through
    auto e = j->p->std[k]; if (!e) return true; auto peer = e->peer.lock();
    if (at < all.size()) {
        if (!peer || peer->closed) { fault("child_writes_to_nobody"); if (!j->p->sigpipe_ignored) { j->sigpiped = true; leave(j, SIGPIPE); } else at = all.size(); return false; }
        size_t n = std::min(all.size() - at, (size_t)(coin(300, "ctiny") ? range(1, 30, "cn") : range(1, 9000, "cn"))); at += e->send(all.substr(at, n));
    }
    return at >= all.size();
}
static void live(Job *j) {
    if (j->exiting || !j->p->execed) return;
    bool o = put(j, 1, j->out, j->so); if (j->exiting) return; bool e = put(j, 2, j->err, j->se); if (j->exiting) return;
    if (auto in = j->p->std[0]) {
        std::string d = in->take(std::min<size_t>(j->take_in - j->got_in.size(), range(1, 9000, "ctake"))); j->got_in += d;
        if (j->got_in != j->in.substr(0, j->got_in.size())) BAD("stdin", "%s reads other bytes than the program wrote to it (%zu so far)", WHO(j), j->got_in.size());
        if (in->rx.empty() && in->rx_eof) j->in_eof = true;
    }
    bool i = j->got_in.size() >= j->take_in || j->in_eof || j->p->std_kind[0] != 'r';
    if (o && !j->out_closed && coin(100, "close_out")) { j->out_closed = true; proc_close(j->p, 1); }
    if (o && e && i) { u64 d = j->lives_long ? range(50, 2000, "linger") * MS : choose(3, "lingers") ? range(1, 3000, "linger_us") * US : 1; after(d, [j] { leave(j, j->status); }); return; }
    soon(j, "cgap");
}
static Job *job_of(Proc *p) { return (Job *)p->user; }
static void forked(Proc *p) {
    Job *j = forking; if (!j) BAD("extra-child", "a process is created although nothing asked for one"); p->user = j;
    if (++j->forks > 1) BAD("extra-child", "%s: more than one process is created for it", WHO(j)); j->p = p;
}
static void execed(Proc *p) {
    Job *j = job_of(p); j->execd = true; 
    std::vector<std::string> want = j->argv;
    if (p->cmd != want[0]) BAD("command", "%s executes \"%s\" instead of \"%s\"", WHO(j), p->cmd.c_str(), want[0].c_str());
    if (p->argv != want) { std::string a; for (auto &x : p->argv) a += " [" + x.substr(0, 60) + "]"; BAD("arguments", "%s gets %zu arguments instead of %zu, or different ones:%s", WHO(j), p->argv.size(), want.size(), a.c_str()); }
    auto norm = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
    std::vector<std::string> env = base_env; for (auto &e : j->env) { std::string pre = e.first + "="; env.erase(std::remove_if(env.begin(), env.end(), [&](const std::string &x) { return !x.compare(0, pre.size(), pre); }), env.end()); env.push_back(pre + e.second); }
    if (norm(p->env) != norm(env)) { std::string a; for (auto &x : p->env) if (std::find(env.begin(), env.end(), x) == env.end()) a += " +" + x.substr(0, 80); for (auto &x : env) if (std::find(p->env.begin(), p->env.end(), x) == p->env.end()) a += " -" + x.substr(0, 80); BAD("environment", "%s gets another environment:%s", WHO(j), a.c_str()); }
    if (p->sigpipe_ignored) BAD("environment", "%s starts with SIGPIPE ignored", WHO(j));
    if (EXEC(j)) { for (int k = 0; k < 3; k++) if (p->std_kind[k] != 's') BAD("streams", "%s: its descriptor %d is not the program's own", WHO(j), k); }
    else { static const char want_kind[] = "rww"; for (int k = 0; k < 3; k++) if (p->std_kind[k] != want_kind[k]) BAD("streams", "%s: its descriptor %d is not the end of a pipe it can %s", WHO(j), k, k ? "write to" : "read from"); if (p->std[1] == p->std[2] ) BAD("streams", "%s: its output and errors go to the same pipe", WHO(j)); }
    count("children"); soon(j, "cstart");
}
static void ended(Proc *p) { Job *j = job_of(p); if (!j) return; j->ended = true; j->ended_at = now_ns(); if (!j->execd && !j->missing && !j->fault) BAD("command", "%s never executes its command", WHO(j)); }

// ---- what the program is asked to do
static void env_var(Job *j, int i) { static const char *n[] = {"ALPHA", "BETA", "PATH", "HOME", "X_1"}; std::string name = n[choose(5, "envname")]; for (auto &e : j->env) if (e.first == name) name += std::to_string(i); std::string v = coin(100, "envempty") ? "" : word(range(1, 60, "envl"), "envv"); j->s[10 + i] = name; j->s[20 + i] = v; j->env.push_back({name, v}); }
static Job *new_job(int task) {
    jobs.emplace_back(new Job); Job *j = jobs.back().get(); j->no = (int)jobs.size() - 1; j->task = task; j->how = 1 + (int)choose(14, "how");
    bool absent = coin(120, "absent"); std::string cmd = absent ? (coin(500, "denied") ? "forbidden" : "nosuch") : "tool" + std::to_string(choose(3, "tool"));
    auto arg = [&] { return coin(80, "argempty") ? std::string() : word(range(1, coin(60, "arglong") ? 3000 : 30, "argl"), "argv"); };
    if (j->how >= 8 && j->how != 14) { cmd = "sh"; absent = false; }
    j->s[0] = cmd; j->argv = {cmd};
    switch (j->how) {
    case 1: case 2: { int n = (int)choose(6, "argc"); for (int i = 1; i <= n; i++) j->argv.push_back(j->s[i] = arg()); j->a[1] = n + 1; if (j->how == 1) { int m = (int)choose(4, "envc"); for (int i = 0; i < m; i++) env_var(j, i); j->a[2] = m; } break; }
    case 4: j->argv.push_back(j->s[1] = arg()); j->argv.push_back(j->s[2] = arg()); break;
    case 5: case 14: env_var(j, 0); j->argv.push_back(j->s[1] = arg()); break;
    case 6: j->argv.push_back(j->s[1] = arg()); for (int i = 0; i < 2; i++) { j->s[20 + i] = word(choose(30, "envl"), "envv"); j->env.push_back({i ? "BETA" : "ALPHA", j->s[20 + i]}); } break;
    case 8: j->s[2] = arg(); j->s[5] = arg(); j->s[6] = arg(); j->argv.push_back("-c"); j->argv.push_back(j->s[2] + " " + j->s[5] + " " + j->s[6]); break;
    case 9: j->s[2] = arg(); j->argv.push_back("-c"); j->argv.push_back(j->s[2]); break;
    case 11: for (int i = 0; i < 2; i++) { j->s[20 + i] = word(choose(30, "envl"), "envv"); j->env.push_back({i ? "BETA" : "ALPHA", j->s[20 + i]}); } j->s[2] = arg(); j->argv.push_back("-c"); j->argv.push_back(j->s[2]); break;
    case 12: j->s[2] = arg(); j->argv.push_back("-c"); j->argv.push_back(j->s[2]); break;
    case 10: case 13: env_var(j, 0); j->s[2] = arg(); j->argv.push_back("-c"); j->argv.push_back(j->s[2]); break;
    default: break;
    }
    j->missing = absent; j->status = coin(120, "killed") ? 1 + (int)choose(15, "signal") : (int)(choose(3, "zero") ? choose(256, "code") : 0) << 8; j->lives_long = coin(80, "long");
    j->fault = sysf.child_dup_fail_permille > 0;
    if (!EXEC(j)) {
        bool wait_first = coin(250, "waitfirst"); size_t cap = default_rcvcap;
        j->out = bytes(size_pick("outsz"), "out"); j->err = bytes(std::min(size_pick("errsz"), cap), "err"); if (wait_first && j->out.size() > cap) j->out.resize(cap);
        j->in = bytes(size_pick("insz"), "in"); j->take_in = coin(700, "takesall") ? j->in.size() : choose(j->in.size() + 1, "takes"); if (j->take_in < j->in.size() && j->in.size() > cap) j->take_in = j->in.size();
        auto st = [&](int op, i64 v = 0) { j->plan.push_back({op, v}); };
        auto misc = [&] { if (coin(200, "misc")) switch (choose(3, "misck")) { case 0: st(SLEEP, range(0, 20, "nap")); break; case 1: st(YIELD); break; default: st(ISEXITED); } };
        auto wait = [&] { int n = 1 + (int)choose(2, "waits"); for (int i = 0; i < n; i++) { misc(); st(choose(5, "waitkind") ? WAITA : WAIT); } };
        if (coin(80, "forgets")) j->in.clear(), j->take_in = 0; // dropped without reading or waiting
        else { misc(); if (j->in.size()) st(STDIN); misc(); if (wait_first) wait(); if (coin(900, "readout")) { st(STDOUT); misc(); if (coin(700, "readerr")) st(STDERR); if (!wait_first && coin(800, "waits")) wait(); } misc(); }
        // a child that takes input nobody gives it would wait for its end, which comes when the program drops it
        bool writes = false; for (auto &p : j->plan) writes |= p.first == STDIN; if (!writes) j->take_in = coin(200, "wantseof") && j->plan.empty() ? 1 : 0; j->stdin_given = writes;
    }
    j->fd0 = open_fds(); ev("task %d starts child %d: %s %s", task, j->no, HOW[j->how], cmd.c_str()); count(HOW[j->how]); return j;
}
static bool running_sync() { for (auto &t : T) if (t.cur && (t.cur->cur == WAIT || (EXEC(t.cur) && t.cur->started))) return true; return false; }
static void check_now(const char *when) {
    for (auto &t : T) if (Job *j = t.cur) {
        if (!j->p || !j->p->ended || now_ns() - j->p->ended_at < 20 * MS) continue;
        if (j->cur == STDOUT || j->cur == STDERR) BAD("eof", "%s ended %.3f ms ago, but %s it has not seen the end (%s)", WHO(j), (now_ns() - j->p->ended_at) / 1e6, OPN[j->cur - 20], when);
        if (j->cur == WAITA || j->cur == WAIT) BAD("wait", "%s ended %.3f ms ago, but %s has not returned (%s)", WHO(j), (now_ns() - j->p->ended_at) / 1e6, OPN[j->cur - 20], when);
    }
}
static void blocking(u64) {
    if (longest_block_ns() > 0) BAD("blocks", "an operation other than wait and execute kept the whole program from running for %.3f ms", longest_block_ns() / 1e6);
    check_now("the program waits for something else");
}
static void judge_all() {
    for (auto &t : T) if (!t.done) { if (t.cur && t.cur->cur) BAD("hang", "%s: %s never returns", WHO(t.cur), OPN[t.cur->cur - 20]); if (t.cur) BAD("hang", "%s: starting it never returns", WHO(t.cur)); BAD("hang", "a task never ends"); }
    for (auto &jp : jobs) { Job *j = jp.get(); if (j->p && j->execd && !j->ended) BAD("stdin", "%s waits for ever: it never sees the end of its input although the program has let go of it", WHO(j)); }
    if (open_fds() != 1) BAD("leak-fd", "everything is over, but descriptors stay open: %s", describe_fds().c_str());
    count("runs_completed"); finish();
}
static void setup() {
    static std::string ll = "C12:livelock"; livelock_class = ll.c_str(); max_calls = 3000000; on_block = blocking; on_fork = forked; on_exec = execed; on_end = ended; sim_signal(SIGPIPE, SIG_IGN);
    clearenv(); setenv("PATH", "/usr/bin:/bin", 1); setenv("HOME", "/home/sim", 1); setenv("EMPTY", "", 1); for (char **v = environ; v && *v; v++) base_env.push_back(*v);
    for (int i = 0; i < 3; i++) commands["tool" + std::to_string(i)] = 0; commands["sh"] = 0; commands["forbidden"] = EACCES;
    never_fd = sut_pipe_read_fd(&never_peer, 10); watch_always = never_fd; ntasks = (int)range(1, 7, "tasks"); T.resize(ntasks); for (auto &t : T) t.left = (int)range(1, 6, "njobs");
    switch (choose(4, "cap")) { case 0: default_rcvcap = 65536; break; case 1: default_rcvcap = 4096; break; case 2: default_rcvcap = range(1, 300, "capn"); break; default: default_rcvcap = 16384; }
    default_profile.lat_min = default_profile.lat_max = 0; if (coin(400, "shorts")) default_profile.short_permille = (unsigned)range(50, 800, "short_pm"); if (coin(200, "eagains")) default_profile.eagain_permille = (unsigned)range(20, 300, "eagain_pm");
    precise = coin(600, "precise"); if (!precise && coin(500, "stalls")) { sysf.stall_permille = (unsigned)range(1, 15, "stall_pm"); sysf.stall_max = range(1, 15, "stall_max") * MS; }
    if (coin(300, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 200, "eintr_pm"); if (coin(200, "spurious")) sysf.spurious_ready_permille = (unsigned)range(10, 100, "spur_pm");
    if (coin(250, "pipefail")) sysf.pipe_fail_permille = (unsigned)range(20, 300, "pipefail_pm"); if (coin(200, "forkfail")) sysf.fork_fail_permille = (unsigned)range(20, 300, "forkfail_pm"); if (coin(200, "pidfd")) sysf.pidfd_fail_permille = (unsigned)range(20, 400, "pidfd_pm");
    if (coin(200, "waiteintr")) sysf.wait_eintr_permille = (unsigned)range(50, 500, "waiteintr_pm"); if (coin(120, "dupfail")) sysf.child_dup_fail_permille = (unsigned)range(50, 400, "dupfail_pm"); if (coin(120, "fdlimit")) sysf.fd_limit = (int)range(9, 30, "fd_limit");
}
static void idle() { check_now("nothing will ever happen again"); judge_all(); }
static void exited(int code) { if (code == 0) { bool all = true; for (auto &t : T) if (!t.done) all = false; if (all) judge_all(); } BAD("exit", "the program ended (code %d): %s", code, last_stderr.substr(0, 300).c_str()); }
Harness sim::harness = {"proc", setup, idle, exited};
static void only_one(const char *what) { if (in_child) BAD("second-copy", "the copy of the program that fork made runs on: %s", what); }
static std::string drain_std() { std::string s = stdout_log; stdout_log.clear(); return s; }

extern "C" {
int hx_next(int id) {
    only_one("it asks what to do next"); Task &t = T[id];
    if (t.cur && t.cur->started) {
        Job *j = t.cur; if (j->pc >= j->plan.size()) { j->cur = 0; return 0; }
        j->cur = j->plan[j->pc].first; j->a[0] = j->cur == STDIN ? (i64)j->in.size() : j->plan[j->pc].second; j->pc++; j->op_t0 = now_ns(); if (j->cur == STDOUT || j->cur == STDERR) j->rd[j->cur - 19].clear();
        ev("task %d: child %d: %s", id, j->no, OPN[j->cur - 20]); reset_longest_block(); return j->cur;
    }
    if (t.left-- <= 0) { t.done = true; t.cur = nullptr; return 0; }
    if (coin(150, "nap")) { t.nap = range(0, 30, "napms"); return SLEEP; }
    t.cur = forking = new_job(id); t.cur->f0 = faults_seen; return t.cur->how;
}
i64 hx_arg(int id, int k) { if (id < 0) return k ? never_fd : ntasks; Task &t = T[id]; return t.cur ? t.cur->a[k] : t.nap; }
const char *hx_str(int id, int k) { return T[id].cur->s[k].c_str(); }
const char *hx_ptr(int id) { return T[id].cur->in.data(); }
void hx_got(int id, int k, const void *d, i64 n) { Job *j = T[id].cur; j->rd[k].append((const char *)d, n); }
void hx_done(int id, int op, int ok, i64 n) {
    only_one("it reports the outcome of an operation"); Task &t = T[id]; if (op == SLEEP && !t.cur) return; Job *j = t.cur;
    if (op == 100) { j->started = true; if (!EXEC(j) && !j->forks) BAD("no-child", "%s is reported as started, but no process has been created", WHO(j)); ev("child %d started", j->no); return; }
    if (op == 101) {
        ev("child %d is over (%s)", j->no, ok ? "ok" : "failed"); bool faulty = sysf.pipe_fail_permille || sysf.fork_fail_permille || sysf.child_dup_fail_permille || sysf.fd_limit < 1024;
        if (!ok && !faulty && !(j->missing)) BAD("failed", "starting %s reports failure although nothing went wrong", WHO(j));
        if (!ok && j->started && !EXEC(j)) BAD("failed", "%s: the failure comes after it was started", WHO(j));
        if (ok && !j->started) BAD("no-child", "%s: starting it ends without a child", WHO(j));
        if (!EXEC(j)) for (auto &f : list_fds()) if (j->p && f.ep && j->p->forked_at) for (auto &h : {j->p->std[0], j->p->std[1], j->p->std[2]}) if (h && f.ep == h->peer.lock()) BAD("leak-fd", "%s has been dropped, but the program keeps descriptor %d of its streams", WHO(j), f.fd);
        state_mark(mix(mix(j->how, ok), mix(j->execd, j->ended * 4 + j->sigpiped * 2 + j->missing))); t.cur = nullptr; if (forking == j) forking = nullptr; return;
    }
    int cur = j->cur; j->cur = 0; if (op == WAIT) reset_longest_block();
    ev("task %d: child %d: %s -> %s %lld", id, j->no, OPN[op - 20], ok ? "ok" : "failed", (long long)n); (void)cur; Proc *p = j->p;
    auto code = [&] { return (p->status & 0x7f) ? -1 : (p->status >> 8) & 0xff; };
    if (op == STDOUT || op == STDERR) {
        int k = op - 19; const std::string &all = k == 1 ? j->out : j->err; size_t wrote = k == 1 ? j->so : j->se; bool first = true; for (size_t i = 0; i + 1 < j->pc; i++) if (j->plan[i].first == op) first = false;
        if (!ok) BAD("failed", "%s: %s reports failure although nothing went wrong", WHO(j), OPN[op - 20]);
        if (first && j->rd[k] != all.substr(0, wrote)) BAD("bytes", "%s: %s returned %zu bytes instead of the %zu it wrote", WHO(j), OPN[op - 20], j->rd[k].size(), wrote);
        if (!p->ended && !(k == 1 && j->out_closed)) BAD("eof", "%s: %s reports the end although the child still has it open", WHO(j), OPN[op - 20]);
    }
    if (op == STDIN) { bool gone = j->ended || j->sigpiped || j->missing || j->fault; if (!ok && !gone) BAD("failed", "%s: writing to it reports failure although nothing went wrong", WHO(j)); if (ok && n != (i64)j->in.size()) BAD("stdin", "%s: writing to it reports %lld bytes instead of %zu", WHO(j), (long long)n, j->in.size()); }
    if (op == WAITA || op == WAIT) {
        if (!ok) { if (op == WAIT || !(sysf.pidfd_fail_permille || sysf.fd_limit < 1024)) BAD("wait", "%s: %s reports failure although nothing went wrong", WHO(j), OPN[op - 20]); return; }
        if (!p || !p->ended) BAD("wait", "%s: %s returns %lld although it has not ended", WHO(j), OPN[op - 20], (long long)n);
        if ((int)n != code()) BAD("wait", "%s: %s returns %lld, but it ended with %d (wait status %d)", WHO(j), OPN[op - 20], (long long)n, code(), p->status);
        if (EXEC(j)) { if (n == 0 && !j->execd) BAD("wait", "%s is reported as successful although it never ran", WHO(j)); return; }
        if (!j->execd && n == 0) BAD("wait", "%s is reported as successful although its command was never executed", WHO(j)); j->waited = true;
    }
    if (op == ISEXITED && (bool)n != (p && p->ended)) { if (!(n == 0 && now_ns() - p->ended_at < 5 * US)) BAD("exited", "%s: isExited says %s", WHO(j), n ? "yes although it is running" : "no although it has ended"); }
    if (op == SLEEP || op == YIELD) return;
}
}
