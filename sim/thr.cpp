// POSIX threads over the simulation's scheduler: one thread runs at a time, blocking and waking are decisions of the run.
#include "internal.h"
#include <pthread.h>
#include <cerrno>
#include <cstring>
#include <ctime>
using namespace sim;
namespace sim {
u64 threads_refused = 0; static std::map<int, u64> refused_; void refused_now() { threads_refused++; refused_[cur_thread()]++; } u64 refused_by(int t) { return refused_[t]; }
static std::set<int> joined_, detached_;
static pthread_t handle(int id) { return (pthread_t)(0x7f0000001000ull + (u64)id * 0x9000); }
static int id_of(pthread_t t) { u64 d = (u64)t - 0x7f0000001000ull; int id = (int)(d / 0x9000); return (u64)t >= 0x7f0000001000ull && d % 0x9000 == 0 && id < thread_count() ? id : -1; }
struct Mtx { int owner = -1, depth = 0, type = 0; }; static std::map<void *, Mtx> mtx; static std::map<void *, u64> attr_type;
struct Cnd { std::deque<std::pair<int, u64>> waiting; std::set<u64> woken; }; static std::map<void *, Cnd> cnd; static u64 tickets = 0;
struct Key { void (*dtor)(void *) = nullptr; bool used = false; }; static std::vector<Key> keys; static std::map<std::pair<int, unsigned>, void *> tls;
static void run_dtors(int id) { for (int r = 0; r < 4; r++) { bool again = false; for (unsigned k = 0; k < keys.size(); k++) { auto it = tls.find({id, k}); if (it == tls.end() || !it->second || !keys[k].used) continue; void *v = it->second; it->second = nullptr; if (keys[k].dtor) { keys[k].dtor(v); again = true; } } if (!again) break; } }
static u64 deadline_of(const struct timespec *ts) { i64 w = (i64)ts->tv_sec * (i64)SEC + ts->tv_nsec - wall_ns(); return w <= 0 ? now_ns() : now_ns() + w; }
static int lock_until(void *m, u64 dl) {
    Mtx &x = mtx[m]; int me = cur_thread();
    if (x.owner == me) { if (x.type == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; } if (x.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
    if (!wait_until([m] { return mtx[m].owner < 0; }, dl)) return ETIMEDOUT;
    mtx[m].owner = me; mtx[m].depth = 1; return 0;
}
}
extern "C" {
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    tick("pthread_create");
    if (sysf.thread_fail_permille && coin(sysf.thread_fail_permille, "thread_fails")) { fault("thread-creation-fails"); threads_refused++; refused_[cur_thread()]++; if (coin(500, "scribble")) *t = (pthread_t)0x7fffdeadull; ev("pthread_create -> EAGAIN"); return EAGAIN; }
    int id = thread_spawn([fn, arg]() -> void * { void *r = fn(arg); run_dtors(cur_thread()); return r; });
    *t = handle(id); count("threads-created"); yield_thread("pthread_create"); return 0;
}
int sim_pthread_join(pthread_t t, void **r) {
    tick("pthread_join"); int id = id_of(t);
    if (id < 0 || id == cur_thread()) { ev("pthread_join of an unknown thread"); count("join-unknown"); return id < 0 ? ESRCH : EDEADLK; }
    if (joined_.count(id) || detached_.count(id)) violate("bad-join", "a thread that has already been joined or detached is joined again, which no system defines");
    joined_.insert(id); ev("joining thread %d", id); wait_until([id] { return thread_finished(id); }, ~0ull); if (r) *r = thread_ret(id); return 0;
}
int sim_pthread_detach(pthread_t t) { tick("pthread_detach"); int id = id_of(t); if (id < 0) return ESRCH; if (joined_.count(id) || detached_.count(id)) return EINVAL; detached_.insert(id); return 0; }
pthread_t sim_pthread_self(void) { return handle(cur_thread()); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void *r) { run_dtors(cur_thread()); thread_exit_self(r); }
int sim_pthread_attr_init(pthread_attr_t *) { return 0; } int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; } int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { attr_type[a] = 0; return 0; } int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { attr_type.erase(a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { attr_type[a] = t; return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mtx[m] = Mtx(); if (a) mtx[m].type = attr_type[(void *)a]; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { mtx.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { tick("pthread_mutex_lock"); return lock_until(m, ~0ull); }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { tick("pthread_mutex_timedlock"); return lock_until(m, deadline_of(ts)); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { tick("pthread_mutex_trylock"); Mtx &x = mtx[m]; if (x.owner >= 0) { if (x.owner == cur_thread() && x.type == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; } return EBUSY; } x.owner = cur_thread(); x.depth = 1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { tick("pthread_mutex_unlock"); Mtx &x = mtx[m]; if (x.owner != cur_thread()) return EPERM; if (--x.depth > 0) return 0; x.owner = -1; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { cnd[c] = Cnd(); return 0; } int sim_pthread_cond_destroy(pthread_cond_t *c) { cnd.erase(c); return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, u64 dl) {
    u64 k = ++tickets; cnd[c].waiting.push_back({cur_thread(), k}); Mtx &x = mtx[m]; int d = x.depth; if (x.owner != cur_thread()) return EPERM; x.owner = -1; x.depth = 0;
    bool w = wait_until([c, k] { return cnd[c].woken.count(k) > 0; }, dl); cnd[c].woken.erase(k); auto &q = cnd[c].waiting; for (size_t i = 0; i < q.size(); i++) if (q[i].second == k) { q.erase(q.begin() + i); break; }
    lock_until(m, ~0ull); mtx[m].depth = d; return w ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { tick("pthread_cond_wait"); return cwait(c, m, ~0ull); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { tick("pthread_cond_timedwait"); return cwait(c, m, deadline_of(ts)); }
int sim_pthread_cond_signal(pthread_cond_t *c) { tick("pthread_cond_signal"); auto &q = cnd[c].waiting; if (!q.empty()) { size_t i = choose(q.size(), "cond"); cnd[c].woken.insert(q[i].second); q.erase(q.begin() + i); } return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { tick("pthread_cond_broadcast"); for (auto &w : cnd[c].waiting) cnd[c].woken.insert(w.second); cnd[c].waiting.clear(); return 0; }
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { for (unsigned i = 0; i < keys.size(); i++) if (!keys[i].used) { keys[i] = {d, true}; *k = i; return 0; } keys.push_back({d, true}); *k = keys.size() - 1; return 0; }
int sim_pthread_key_delete(pthread_key_t k) { if (k >= keys.size()) return EINVAL; keys[k].used = false; for (auto it = tls.begin(); it != tls.end();) it = it->first.second == k ? tls.erase(it) : std::next(it); return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { auto it = tls.find({cur_thread(), k}); return it == tls.end() ? nullptr : it->second; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { if (k >= keys.size() || !keys[k].used) return EINVAL; tls[{cur_thread(), k}] = (void *)v; return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { static std::map<void *, int> st; int &s = st[o]; if (s == 2) return 0; if (s == 1) { wait_until([o] { return st[o] == 2; }, ~0ull); return 0; } s = 1; f(); st[o] = 2; return 0; }
}
