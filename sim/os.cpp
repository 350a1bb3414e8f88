// simkit: the simulated operating system (descriptors, epoll, sockets, pipes, files, clocks, memory).
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/sendfile.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <malloc.h>
#include <time.h>
#include <algorithm>
#include "internal.h"

namespace sim {
// ------------------------------------------------------------------------------------------------ addresses
bool Addr::operator<(const Addr &o) const { if (family != o.family) return family < o.family; int c = memcmp(ip, o.ip, 16); if (c) return c < 0; return port < o.port; }
bool Addr::operator==(const Addr &o) const { return family == o.family && !memcmp(ip, o.ip, 16) && port == o.port; }
std::string Addr::str() const { char b[64]; if (family == AF_INET) { inet_ntop(AF_INET, ip, b, sizeof b); } else if (family == AF_INET6) inet_ntop(AF_INET6, ip, b, sizeof b); else strcpy(b, "?"); return std::string(b) + ":" + std::to_string(port); }
Addr v4(const char *d, uint16_t port) { Addr a; a.family = AF_INET; inet_pton(AF_INET, d, a.ip); a.port = port; return a; }
static Addr from_sa(const sockaddr *sa, socklen_t len) {
    Addr a; if (!sa) return a;
    if (sa->sa_family == AF_INET && len >= sizeof(sockaddr_in)) { auto s = (const sockaddr_in *)sa; a.family = AF_INET; memcpy(a.ip, &s->sin_addr, 4); a.port = ntohs(s->sin_port); }
    else if (sa->sa_family == AF_INET6 && len >= 24) { auto s = (const sockaddr_in6 *)sa; a.family = AF_INET6; memcpy(a.ip, &s->sin6_addr, 16); a.port = ntohs(s->sin6_port); }
    return a;
}
static void to_sa(const Addr &a, sockaddr *sa, socklen_t *len) {
    if (!sa || !len) return;
    char buf[128]; memset(buf, 0, sizeof buf); socklen_t n;
    if (a.family == AF_INET6) { auto s = (sockaddr_in6 *)buf; s->sin6_family = AF_INET6; memcpy(&s->sin6_addr, a.ip, 16); s->sin6_port = htons(a.port); n = sizeof *s; }
    else { auto s = (sockaddr_in *)buf; s->sin_family = AF_INET; memcpy(&s->sin_addr, a.ip, 4); s->sin_port = htons(a.port); n = sizeof *s; }
    memcpy(sa, buf, std::min<socklen_t>(*len, n)); *len = n;
}

// ------------------------------------------------------------------------------------------------ objects
enum Kind { K_STD, K_EPOLL, K_SOCK, K_LISTEN, K_UDP, K_PIPE_R, K_PIPE_W, K_FILE, K_PID, K_RAWSOCK };
struct File; using FileP = std::shared_ptr<File>;
struct EpReg { std::weak_ptr<File> f; u32 events; u64 data; };
struct Listener { std::deque<EpP> backlog; int max = 128; Addr addr; bool open = true; u64 ready_since = 0; };
struct Udp { Addr local, remote; bool connected = false; std::deque<std::pair<Addr, std::string>> q; int so_err = 0; };
struct Proc;
struct File {
    Kind kind; bool nonblock = false; int std_fd = -1;
    std::map<int, EpReg> regs;              // epoll
    EpP ep;                                 // stream / pipe ends
    std::shared_ptr<Listener> lst; std::shared_ptr<Udp> udp;
    InodeP ino; size_t off = 0; bool rd = true, wr = false, append = false; std::string path;
    int family = AF_INET, type = SOCK_STREAM; Addr bound; bool has_bound = false; bool reuse = false;
    std::shared_ptr<bool> pid_ready;        // pidfd
    bool connecting = false; bool conn_fail_reported = false;
    int slot_fd = -1;
};
enum { NFD = 1280 };
static FileP fds[NFD]; static bool fd_cloexec[NFD]; static std::multiset<File *> held; // by child processes
std::map<std::string, InodeP> vfs; FileFaults file_faults; SysFaults sysf;
NetProfile default_profile; size_t default_rcvcap = 65536;
static u64 longest_block; u64 longest_block_ns() { return longest_block; } void reset_longest_block() { longest_block = 0; }
static bool sigpipe_ignored = false;
std::function<void(u64)> on_block;
static bool blocked_call(std::function<bool()> pred, u64 deadline, const char *what) {
    u64 t = now_ns(); bool r = wait_until(pred, deadline); u64 d = now_ns() - t;
    if (d > longest_block) longest_block = d;
    ev("%s kept the thread for %llu us", what, (unsigned long long)(d / US));
    return r;
}
#define ERR(e) do { errno = (e); return -1; } while (0)

static int alloc_fd(FileP f) {
    int open = 0; for (int i = 3; i < NFD; i++) if (fds[i]) open++;
    if (open + 3 >= sysf.fd_limit) { errno = EMFILE; fault("EMFILE"); return -1; }
    for (int i = 3; i < NFD; i++) if (!fds[i]) { fds[i] = f; fd_cloexec[i] = false; return i; }
    errno = EMFILE; return -1;
}
static FileP get(int fd) { if (fd < 0 || fd >= NFD) return nullptr; return fds[fd]; }
int open_fds() { int n = 0; for (int i = 3; i < NFD; i++) if (fds[i] && fds[i]->kind != K_EPOLL) n++; return n; }
std::string describe_fds() {
    std::string s; static const char *nm[] = {"std", "epoll", "socket", "listener", "udp", "pipe-r", "pipe-w", "file", "pidfd", "socket"};
    for (int i = 3; i < NFD; i++) if (fds[i] && fds[i]->kind != K_EPOLL) s += " " + std::to_string(i) + ":" + nm[fds[i]->kind] + (fds[i]->ep ? "(" + fds[i]->ep->name + ")" : fds[i]->path.empty() ? "" : "(" + fds[i]->path + ")");
    return s;
}
std::vector<FdInfo> list_fds() {
    static const char *nm[] = {"std", "epoll", "socket", "listener", "udp", "pipe-r", "pipe-w", "file", "pidfd", "rawsocket"};
    std::vector<FdInfo> v; for (int i = 3; i < NFD; i++) if (fds[i] && fds[i]->kind != K_EPOLL) v.push_back({i, nm[fds[i]->kind], fds[i]->ep, fds[i]->nonblock, fds[i]->lst ? fds[i]->lst->addr.port : (uint16_t)0, fds[i]->path});
    return v;
}
std::function<void(EpP)> on_backlog; std::function<void()> on_no_memory; u64 accept_faults, socket_faults, watch_faults; int watch_always = -1;
Addr addr_of(const void *sa) { auto s = (const sockaddr *)sa; return from_sa(s, s->sa_family == AF_INET6 ? 28 : 16); }
int sut_backlog(const Addr &a, int *fd) { for (int i = 3; i < NFD; i++) if (fds[i] && fds[i]->kind == K_LISTEN && fds[i]->lst->open && fds[i]->lst->addr.port == a.port && fds[i]->lst->addr.family == a.family) { if (fd) *fd = i; return fds[i]->lst->backlog.size(); } return -1; }
EpP endpoint_of(int fd) { auto f = get(fd); return f ? f->ep : nullptr; }
void fd_set_nonblock(int fd, bool nb) { if (auto f = get(fd)) f->nonblock = nb; }

// ------------------------------------------------------------------------------------------------ stream endpoints
static int sut_wr_threshold = 1;
size_t Endpoint::space() const { if (closed) return (size_t)1 << 20; size_t u = rx.size() + inflight; return u >= rcvcap ? 0 : rcvcap - u; }
bool Endpoint::readable() const { return !rx.empty() || rx_eof || so_err || was_rst; }
bool Endpoint::writable() const { if (so_err || was_rst || fin_sent) return true; if (!established && !pipe) return false; auto p = peer.lock(); return !p || p->closed || p->space() > 0; }
bool Endpoint::hup() const { return was_rst || (rx_eof && fin_sent); }
bool Endpoint::err() const { return so_err != 0; }
static void notify(const EpP &e) { if (e && e->on_event) e->on_event(); }
// schedule delivery of bytes sent by `from` to its peer
static void transmit(const EpP &from, const std::string &d) {
    EpP to = from->peer.lock(); if (!to || d.empty()) return;
    to->inflight += d.size(); from->sent_total += d.size();
    if (to->blackhole) return;
    size_t i = 0; unsigned mode = from->prof.seg_mode; int pieces = 0;
    while (i < d.size()) {
        size_t left = d.size() - i, n = left;
        if (mode && left > 1 && pieces < 48) {
            if (mode == 1) n = 1 + choose(left, "seg"); else if (mode == 2) n = pieces < 40 ? 1 : left; else if (mode == 3) n = (left + 1) / 2;
        }
        pieces++;
        u64 lat = range(from->prof.lat_min / US, from->prof.lat_max / US, "lat_us") * US;
        u64 t = std::max(now_ns() + lat, to->last_arrival + 1); if (!to->closed) to->last_arrival = t;
        std::string piece = d.substr(i, n); i += n;
        EpP keep = from;
        at(t, [to, keep, piece] {
            to->inflight -= piece.size();
            if (to->closed) { if (!to->pipe) { // data for a closed socket: reset goes back
                EpP k = keep; after(20 * US, [k] { if (!k->was_rst && !k->closed) { ev("%s: reset arrives", k->name.c_str()); k->so_err = k->rx_eof ? EPIPE : ECONNRESET; k->was_rst = true; k->rx_eof = true; notify(k); } }); }
                return; }
            if (to->was_rst) return;
            ev("%s: %zu bytes arrive", to->name.c_str(), piece.size());
            to->rx += piece; notify(to);
        });
    }
}
static void send_fin(const EpP &from) {
    if (from->fin_sent) return; from->fin_sent = true;
    EpP to = from->peer.lock(); if (!to) return; if (to->blackhole) return;
    u64 t = std::max(now_ns() + from->prof.lat_min, to->last_arrival + 1); if (!to->closed) to->last_arrival = t; EpP keep = from;
    at(t, [to, keep] { if (to->closed || to->was_rst) return; ev("%s: end of stream arrives", to->name.c_str()); to->rx_eof = true; notify(to); });
}
static void send_rst(const EpP &from) {
    EpP to = from->peer.lock(); if (!to) return; from->fin_sent = true; if (to->blackhole) return;
    u64 t = std::max(now_ns() + from->prof.lat_min, to->last_arrival + 1); if (!to->closed) to->last_arrival = t; EpP keep = from;
    at(t, [to, keep] { if (to->closed || to->was_rst) return; ev("%s: reset arrives", to->name.c_str()); to->so_err = to->rx_eof ? EPIPE : ECONNRESET; to->was_rst = true; to->rx_eof = true; notify(to); });
}
size_t Endpoint::send(const std::string &d) {
    if (closed || fin_sent || was_rst) return 0; size_t n = std::min(d.size(), tx_space()); transmit(shared_from_this(), d.substr(0, n)); return n;
}
std::string Endpoint::take(size_t max) {
    size_t n = std::min(max, rx.size()); std::string r = rx.substr(0, n); rx.erase(0, n); recv_total += n;
    if (n) { auto p = peer.lock(); if (p) { after(10 * US, [p] { notify(p); }); } }
    return r;
}
void Endpoint::shutdown_wr() { send_fin(shared_from_this()); }
void Endpoint::close_() {
    if (closed) return; 
    EpP self = shared_from_this();
    if (!was_rst) { if (!pipe && !rx.empty()) send_rst(self); else send_fin(self); }
    closed = true; on_event = nullptr;
    if (pipe) { auto p = peer.lock(); if (p && p->on_event) after(1 * US, [p] { notify(p); }); }
}
void Endpoint::reset() { if (closed) return; send_rst(shared_from_this()); closed = true; on_event = nullptr; }
static std::vector<EpP> keepalive;
static void pair_up(EpP a, EpP b) { a->peer = b; b->peer = a; keepalive.push_back(a); keepalive.push_back(b); a->established = b->established = true; }

// ---- listeners
struct ActorListener { std::function<void(EpP)> cb; std::function<ConnectPolicy()> pol; };
static std::map<Addr, ActorListener> actor_listeners; static std::map<Addr, std::weak_ptr<Listener>> sut_listeners;
void actor_listen(const Addr &a, std::function<void(EpP)> cb, std::function<ConnectPolicy()> pol) { actor_listeners[a] = {cb, pol}; }
static std::shared_ptr<Listener> find_listener(const Addr &a) {
    auto it = sut_listeners.find(a); if (it != sut_listeners.end()) { auto l = it->second.lock(); if (l && l->open) return l; }
    Addr any = a; memset(any.ip, 0, 16); it = sut_listeners.find(any); if (it != sut_listeners.end()) { auto l = it->second.lock(); if (l && l->open) return l; }
    return nullptr;
}
static uint16_t next_port = 40000;
EpP actor_connect(const Addr &to, const Addr &from, const NetProfile &mine, const NetProfile &theirs, size_t mycap, size_t theircap) {
    EpP c = std::make_shared<Endpoint>(), s = std::make_shared<Endpoint>();
    c->name = "peer" + std::to_string(from.port); s->name = "conn" + std::to_string(from.port);
    c->local = from; c->remote = to; s->local = to; s->remote = from; c->prof = mine; s->prof = theirs; c->rcvcap = mycap; s->rcvcap = theircap;
    c->peer = s; s->peer = c; keepalive.push_back(c); keepalive.push_back(s);
    u64 lat = range(mine.lat_min / US, mine.lat_max / US, "syn_us") * US;
    after(lat, [c, s, to] {
        if (c->closed) return;
        auto l = find_listener(to);
        if (!l) { ev("%s: connection refused", c->name.c_str()); c->so_err = ECONNREFUSED; c->was_rst = true; notify(c); return; }
        if ((int)l->backlog.size() > l->max) { ev("%s: listen queue full, SYN dropped", c->name.c_str()); fault("syn_dropped"); c->so_err = ETIMEDOUT; c->was_rst = true; notify(c); return; }
        c->established = s->established = true; if (l->backlog.empty()) l->ready_since = now_ns(); l->backlog.push_back(s); if (on_backlog) on_backlog(s); s->last_arrival = std::max(s->last_arrival, now_ns());
        ev("%s: connection queued", s->name.c_str()); notify(c);
    });
    return c;
}

// ---- datagrams
static std::map<Addr, std::function<void(const Addr &, const std::string &)>> udp_actors; static std::vector<std::weak_ptr<Udp>> udps;
std::function<u64()> udp_tx_fate; std::function<void(const Addr &, const Addr &, const std::string &)> on_udp_send;
void actor_udp(const Addr &a, std::function<void(const Addr &, const std::string &)> cb) { udp_actors[a] = cb; }
void udp_deliver(const Addr &to, const Addr &from, const std::string &d, u64 delay, std::function<void(bool)> done) {
    after(delay, [to, from, d, done] {
        for (auto &w : udps) if (auto u = w.lock()) if (u->local.port == to.port && u->local.family == to.family) {
            if (u->connected && !(u->remote == from)) { ev("datagram from %s ignored by connected socket", from.str().c_str()); if (done) done(false); return; }
            ev("datagram of %zu bytes from %s arrives at port %u", d.size(), from.str().c_str(), to.port); bool room = u->q.size() < 64; if (room) u->q.push_back({from, d}); if (done) done(room); return;
        }
        ev("datagram for port %u: nobody there", to.port); if (done) done(false);
    });
}
void udp_icmp_refused(const Addr &to, const Addr &from) { after(50 * US, [to, from] { for (auto &w : udps) if (auto u = w.lock()) if (u->local.port == to.port && u->connected && u->remote == from) { u->so_err = ECONNREFUSED; ev("port unreachable for %u", to.port); } }); }

// ------------------------------------------------------------------------------------------------ readiness
static u32 ready_events(File *f) {
    u32 e = 0;
    switch (f->kind) {
    case K_SOCK: if (!f->ep->established && !f->ep->so_err && !f->ep->was_rst) break;
        if (f->ep->readable()) e |= EPOLLIN; if (f->ep->writable()) e |= EPOLLOUT; if (f->ep->err() ) e |= EPOLLERR; if (f->ep->hup()) e |= EPOLLHUP; if (f->ep->rx_eof) e |= EPOLLRDHUP; break;
    case K_RAWSOCK: e = EPOLLOUT | EPOLLHUP; break;
    case K_LISTEN: if (!f->lst->backlog.empty()) e |= EPOLLIN; break;
    case K_UDP: if (!f->udp->q.empty()) e |= EPOLLIN; e |= EPOLLOUT; if (f->udp->so_err) e |= EPOLLERR | EPOLLIN; break;
    case K_PIPE_R: if (!f->ep->rx.empty()) e |= EPOLLIN; if (f->ep->rx_eof) e |= EPOLLHUP; break;
    case K_PIPE_W: { auto p = f->ep->peer.lock(); if (!p || p->closed) e |= EPOLLERR; if (!p || (p->closed ? p->rx.size() + p->inflight < p->rcvcap : p->space() > 0)) e |= EPOLLOUT; break; }
    case K_PID: if (*f->pid_ready) e |= EPOLLIN; break;
    case K_FILE: case K_STD: e = EPOLLIN | EPOLLOUT; break;
    default: break;
    }
    return e;
}
bool fd_readable(int fd) { auto f = get(fd); return f && (ready_events(f.get()) & (EPOLLIN | EPOLLHUP | EPOLLERR)); }
bool fd_writable(int fd) { auto f = get(fd); return f && (ready_events(f.get()) & (EPOLLOUT | EPOLLHUP | EPOLLERR)); }

static void last_close(const FileP &f) {
    if (f->ep && (f->kind == K_SOCK || f->kind == K_PIPE_R || f->kind == K_PIPE_W)) f->ep->close_();
    if (f->lst) { f->lst->open = false; for (auto &e : f->lst->backlog) e->reset(); f->lst->backlog.clear(); }
    if (f->ino) f->ino->opens--;
}
static void do_close(int fd) {
    FileP f = fds[fd]; fds[fd] = nullptr;
    for (int i = 0; i < NFD; i++) if (fds[i] == f) return; // duplicated descriptor: still open
    for (int i = 0; i < NFD; i++) if (fds[i] && fds[i]->kind == K_EPOLL) for (auto it = fds[i]->regs.begin(); it != fds[i]->regs.end();) { if (it->second.f.lock() == f) it = fds[i]->regs.erase(it); else ++it; }
    if (held.count(f.get())) return;
    last_close(f);
}
// ---- child processes: fork makes a real copy, which lives until it executes a command or exits; from then on the
// command is an actor that holds the descriptors the copy had
std::map<std::string, int> commands; std::function<void(Proc *)> on_fork, on_exec, on_end; static std::map<int, std::unique_ptr<Proc>> procs;
struct ChildRep { int how, code; bool sigpipe; u32 nfd, nfd_exec; struct { int fd; File *f; } f[64]; size_t n; char blob[1 << 20]; };
static ChildRep *rep; static int child_dups = 0, child_dup_fail = 0;
static void child_leaves(int rc) { rep->how = 2; rep->code = rc; _exit(0); }
static void put_blob(const char *s) { size_t k = strlen(s) + 1; if (rep->n + k < sizeof rep->blob) { memcpy(rep->blob + rep->n, s, k); rep->n += k; } }
static void let_go(const FileP &f) { auto it = held.find(f.get()); if (it == held.end()) return; held.erase(it); if (held.count(f.get())) return; for (int i = 0; i < NFD; i++) if (fds[i] == f) return; last_close(f); }
void proc_close(Proc *p, int k) { auto e = p->std[k]; if (!e) return; p->std[k] = nullptr; for (int i = 0; i < 3; i++) if (p->std[i] == e) return; for (auto it = p->holds.begin(); it != p->holds.end();) if ((*it)->ep == e) { FileP f = *it; it = p->holds.erase(it); let_go(f); } else ++it; }
void proc_end(Proc *p, int status) {
    if (p->ended) return; p->ended = true; p->status = status; p->ended_at = now_ns(); ev("process %d ends with status %d", p->pid, status); if (p->execed) for (auto &e : p->std) if (e) e->on_event = nullptr;
    auto h = p->holds; p->holds.clear(); for (auto &f : h) let_go(f); for (auto &e : p->std) e = nullptr; *p->ready = true; if (on_end) on_end(p);
}
void fd_close(int fd) { if (get(fd)) do_close(fd); }
bool fd_move(int fd, int to) { auto f = get(fd); if (!f || to >= NFD || get(to)) return false; fds[to] = f; fd_cloexec[to] = fd_cloexec[fd]; fds[fd] = nullptr; return true; }

// ------------------------------------------------------------------------------------------------ making descriptors for scenarios
static int mk(EpP e, Kind k) { auto f = std::make_shared<File>(); f->kind = k; f->ep = e; return alloc_fd(f); }
static int mkcount = 0;
int sut_socketpair_fd(EpP *other, size_t cap_to, size_t cap_from, const NetProfile &ps, const NetProfile &pp) {
    EpP a = std::make_shared<Endpoint>(), b = std::make_shared<Endpoint>(); int n = ++mkcount; a->name = "s" + std::to_string(n); b->name = "p" + std::to_string(n);
    a->rcvcap = cap_to; b->rcvcap = cap_from; a->prof = ps; b->prof = pp; pair_up(a, b); *other = b; int fd = mk(a, K_SOCK); if (fd >= 0) fds[fd]->nonblock = true; return fd;
}
int sut_pipe_read_fd(EpP *w, size_t cap) { EpP a = std::make_shared<Endpoint>(), b = std::make_shared<Endpoint>(); int n = ++mkcount; a->name = "pr" + std::to_string(n); b->name = "pw" + std::to_string(n); a->pipe = b->pipe = true; a->rcvcap = cap; pair_up(a, b); b->prof = default_profile; *w = b; int fd = mk(a, K_PIPE_R); if (fd >= 0) fds[fd]->nonblock = true; return fd; }
int sut_pipe_write_fd(EpP *r, size_t cap) { EpP a = std::make_shared<Endpoint>(), b = std::make_shared<Endpoint>(); int n = ++mkcount; a->name = "pw" + std::to_string(n); b->name = "pr" + std::to_string(n); a->pipe = b->pipe = true; b->rcvcap = cap; pair_up(a, b); a->prof = default_profile; *r = b; int fd = mk(a, K_PIPE_W); if (fd >= 0) fds[fd]->nonblock = true; return fd; }

void os_init() { child_exits = child_leaves; for (int i = 0; i < 3; i++) { fds[i] = std::make_shared<File>(); fds[i]->kind = K_STD; fds[i]->std_fd = i; fds[i]->wr = true; } }

// faults on file transfers
static int file_ops = 0;
void file_arm() { file_ops = 0; }
std::vector<FileError> file_errors; std::function<void(InodeP, const std::string &)> on_file_read;
static bool file_fault(const char *what, const std::string &path, int fd = -1) { // an injected hard error
    file_ops++;
    if (file_faults.fail_after >= 0 && file_ops > file_faults.fail_after) { file_faults.fail_after = -1; errno = file_faults.fail_errno; file_errors.push_back({what, path, fd, errno}); fault(what); return true; }
    return false;
}
static size_t shorten(size_t n, unsigned pm, const char *what) { if (n > 1 && coin(pm, what)) { fault(what); return 1 + choose(n - 1, "short_len"); } return n; }
static ssize_t stream_recv(FileP f, int fd, void *buf, size_t n, bool peek, bool dontwait, const char *nm) {
    EpP e = f->ep; bool nb = f->nonblock || dontwait;
    if (!e) ERR(ENOTCONN);
    if (!e->established && !e->so_err && !e->was_rst) ERR(ENOTCONN);
    if (n == 0) return 0;
    if (!e->rx.empty() && nb && !peek && coin(e->prof.eagain_permille, "eagain")) { fault("spurious_EAGAIN"); ev("%s(%d) -> EAGAIN (spurious)", nm, fd); ERR(EAGAIN); }
    for (;;) {
        if (!e->rx.empty()) {
            size_t k = std::min(n, e->rx.size()); k = shorten(k, e->prof.short_permille, "short_read");
            memcpy(buf, e->rx.data(), k); if (!peek) { e->take(k); }
            ev("%s(%d, %zu) -> %zu", nm, fd, n, k); return k;
        }
        if (e->so_err) { int er = e->so_err; e->so_err = 0; ev("%s(%d) -> error %d", nm, fd, er); fault("reset_seen"); ERR(er); }
        if (e->rx_eof || e->was_rst) { ev("%s(%d) -> end", nm, fd); return 0; }
        if (nb) { ev("%s(%d) -> EAGAIN", nm, fd); ERR(EAGAIN); }
        blocked_call([e] { return !e->rx.empty() || e->rx_eof || e->so_err || e->was_rst; }, ~0ull, nm);
    }
}
static void raise_sigpipe(const char *nm, int fd, bool nosig) {
    if (!nosig && !sigpipe_ignored) violate("crash:SIGPIPE", "%s on descriptor %d, whose peer is gone, killed the process with SIGPIPE", nm, fd);
}
static ssize_t stream_send(FileP f, int fd, const void *buf, size_t n, int flags, const char *nm) {
    EpP e = f->ep; bool nb = f->nonblock || (flags & MSG_DONTWAIT);
    if (!e) ERR(ENOTCONN);
    if (!e->established && !e->so_err && !e->was_rst) ERR(e->connecting ? EAGAIN : ENOTCONN);
    EpP p = e->peer.lock();
    size_t done = 0;
    for (;;) {
        if (e->so_err) { int er = e->so_err; e->so_err = 0; ev("%s(%d) -> error %d", nm, fd, er); fault("send_error_seen"); if (er == EPIPE) raise_sigpipe(nm, fd, flags & MSG_NOSIGNAL); ERR(er); }
        if (e->fin_sent || e->was_rst || (e->pipe && (!p || p->closed))) { ev("%s(%d) -> EPIPE", nm, fd); fault("EPIPE"); raise_sigpipe(nm, fd, flags & MSG_NOSIGNAL); ERR(EPIPE); }
        if (n == 0) return 0;
        size_t sp = p ? p->space() : n;
        if (nb && sp && coin(e->prof.eagain_permille, "eagain")) { fault("spurious_EAGAIN"); ev("%s(%d, %zu) -> EAGAIN (spurious)", nm, fd, n); ERR(EAGAIN); }
        if (sp) {
            size_t k = std::min(n - done, sp); if (k < n - done) fault("short_write_full"); k = shorten(k, e->prof.short_permille, "short_write");
            std::string d((const char *)buf + done, k); if (e->log_tx) e->tx_log += d; if (e->on_sut_data) e->on_sut_data(e);
            transmit(e, d); ev("%s(%d, %zu) -> %zu", nm, fd, n, k); done += k;
            if (nb || done == n) return done;
        } else {
            if (nb) { ev("%s(%d, %zu) -> EAGAIN", nm, fd, n); fault("send_blocked"); ERR(EAGAIN); }
            blocked_call([e, p] { return e->so_err || e->was_rst || !p || p->closed || p->space() > 0; }, ~0ull, nm);
        }
    }
}
static ssize_t std_write(int sfd, const void *buf, size_t n) {
    if (sfd == 0) { ev("write to the standard input"); ERR(EBADF); }
    size_t k = shorten(n, file_faults.short_permille, "short_std_write");
    if (sfd == 2) { last_stderr.append((const char *)buf, k); if (last_stderr.size() > 8192) last_stderr.erase(0, 4096); }
    else { stdout_log.append((const char *)buf, k); if (stdout_log.size() > (4u << 20)) stdout_log.erase(0, 2u << 20); }
    return k;
}
static ssize_t file_write(FileP f, const void *buf, size_t n, size_t *off, const char *nm) {
    if (file_fault("write_error", f->path)) { ev("%s -> error %d", nm, errno); return -1; }
    size_t k = shorten(n, file_faults.short_permille, "short_file_write");
    u64 used = 0; for (auto &v : vfs) if (!v.second->dir) used += v.second->data.size();
    size_t end = *off + k; size_t grow = end > f->ino->data.size() ? end - f->ino->data.size() : 0;
    if (used + grow > file_faults.disk_cap) { size_t can = file_faults.disk_cap > used ? file_faults.disk_cap - used : 0; fault("ENOSPC"); if (grow - can >= k || can == 0) file_errors.push_back({"ENOSPC", f->path, -1, ENOSPC}); if (grow - can >= k || can == 0) { ev("%s -> ENOSPC", nm); ERR(ENOSPC); } k -= (grow - can); end = *off + k; }
    if (f->ino->data.size() < end) f->ino->data.resize(end, '\0');
    memcpy(&f->ino->data[*off], buf, k); *off = end; ev("%s %s %zu -> %zu", nm, f->path.c_str(), n, k); return k;
}
static ssize_t file_read(FileP f, void *buf, size_t n, size_t *off, const char *nm) {
    if (file_fault("read_error", f->path)) { ev("%s -> error %d", nm, errno); return -1; }
    if (on_file_read) on_file_read(f->ino, f->path);
    if (f->ino->dir) ERR(EISDIR);
    size_t k = *off < f->ino->data.size() ? std::min(n, f->ino->data.size() - *off) : 0; k = shorten(k, file_faults.short_permille, "short_file_read");
    memcpy(buf, f->ino->data.data() + *off, k); *off += k; ev("%s %s %zu -> %zu", nm, f->path.c_str(), n, k); return k;
}
int fd_of_path(const std::string &path, int flags) {
    auto it = vfs.find(path); InodeP ino;
    if (it == vfs.end()) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } ino = std::make_shared<Inode>(); vfs[path] = ino; }
    else { if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; } ino = it->second; if (flags & O_TRUNC) ino->data.clear(); }
    auto f = std::make_shared<File>(); f->kind = K_FILE; f->ino = ino; f->path = path; int acc = flags & O_ACCMODE; f->rd = acc != O_WRONLY; f->wr = acc != O_RDONLY; f->append = flags & O_APPEND; f->nonblock = flags & O_NONBLOCK;
    int fd = alloc_fd(f); if (fd >= 0) ino->opens++; return fd;
}
// memory accounting
static i64 n_alloc, b_alloc, n_map, b_map; i64 live_allocs() { return n_alloc; } i64 live_bytes() { return b_alloc; } i64 live_maps() { return n_map; } i64 live_map_bytes() { return b_map; }
bool track_blocks = false; static std::map<char *, std::pair<size_t, u64>> blocks; static u64 block_serial = 0;
static void blk_new(void *p, size_t n) { if (track_blocks) blocks[(char *)p] = {n, ++block_serial}; }
static void blk_gone(void *p) { if (track_blocks && !blocks.erase((char *)p) && block_serial) violate("double-free", "the program gives back memory that is not its own (any more)"); }
u64 block_at(const void *p) { auto it = blocks.upper_bound((char *)p); if (it == blocks.begin()) return 0; --it; return (char *)p < it->first + it->second.first ? it->second.second : 0; }
static int fill_pat = -1;
static void fill(void *p, size_t n) { if (fill_pat < 0) fill_pat = (int)choose(4, "heap_fill"); static const unsigned char pats[] = {0, 0xff, 0xa5, 0x01}; if (n <= 65536) memset(p, pats[fill_pat], n); }
}  // namespace sim

using namespace sim;
extern "C" {
// ------------------------------------------------------------------------------------------------ time
int sim_gettimeofday(struct timeval *tv, void *) { tick("gettimeofday"); i64 w = wall_ns(); tv->tv_sec = w / (i64)SEC; tv->tv_usec = (w % (i64)SEC) / 1000; return 0; }
time_t sim_time(time_t *t) { tick("time"); time_t v = wall_ns() / (i64)SEC; if (t) *t = v; return v; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { tick("clock_gettime"); i64 n = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_ns() : (i64)mono_abs(); ts->tv_sec = n / (i64)SEC; ts->tv_nsec = n % (i64)SEC; return 0; }
int sim_nanosleep(const struct timespec *rq, struct timespec *rm) { tick("nanosleep"); u64 d = rq->tv_sec * SEC + rq->tv_nsec; if (rm) rm->tv_sec = rm->tv_nsec = 0; blocked_call([] { return false; }, now_ns() + d, "nanosleep"); return 0; }
int sim_usleep(useconds_t u) { tick("usleep"); blocked_call([] { return false; }, now_ns() + u * US, "usleep"); return 0; }
unsigned sim_sleep(unsigned s) { tick("sleep"); blocked_call([] { return false; }, now_ns() + s * SEC, "sleep"); return 0; }
long sim_random(void) { return (long)(entropy() >> 33); }
int sim_rand(void) { return (int)(entropy() >> 33); }
void sim_srandom(unsigned) {} void sim_srand(unsigned) {}
uint32_t sim_arc4random(void) { return (uint32_t)entropy(); }
void sim_arc4random_buf(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((char *)p)[i] = (char)entropy(); }
ssize_t sim_getrandom(void *p, size_t n, unsigned) { sim_arc4random_buf(p, n); return n; }
pid_t sim_getpid(void) { return 4242; }
pid_t sim_gettid(void) { return 4242 + cur_thread(); }
long sim_sysconf(int name) { if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return 4; return sysconf(name); }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
int sim_sched_yield(void) { tick("sched_yield"); yield_thread("sched_yield"); return 0; }

// ------------------------------------------------------------------------------------------------ memory
void *sim_malloc(size_t n) { void *p = malloc(n ? n : 1); if (p) { n_alloc++; b_alloc += malloc_usable_size(p); fill(p, n); blk_new(p, n); } return p; }
void *sim_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) { n_alloc++; b_alloc += malloc_usable_size(p); blk_new(p, a * b); } return p; }
void sim_free(void *p) { if (p) { blk_gone(p); n_alloc--; size_t n = malloc_usable_size(p); b_alloc -= n;
#ifndef SIM_ASAN
    memset(p, 0xdd, n < 65536 ? n : 65536);
#endif
    } free(p); }
void *sim_realloc(void *o, size_t n) { if (!o) return sim_malloc(n); blk_gone(o); b_alloc -= malloc_usable_size(o); size_t was = malloc_usable_size(o); void *p = realloc(o, n); if (p) { blk_new(p, n); b_alloc += malloc_usable_size(p); if (n > was) fill((char *)p + was, n - was); } else if (n) { b_alloc += was; blk_new(o, was); } else n_alloc--; return p; }
// the same for the native libraries (not the event loop), whose allocations can be made to fail
static bool no_memory() { if (!sysf.native_alloc_fail_permille || !coin(sysf.native_alloc_fail_permille, "no_memory")) return false; fault("allocation_fails"); socket_faults++; if (on_no_memory) on_no_memory(); errno = ENOMEM; return true; }
void *sim_native_malloc(size_t n) { return no_memory() ? nullptr : sim_malloc(n); }
void *sim_native_calloc(size_t a, size_t b) { return no_memory() ? nullptr : sim_calloc(a, b); }
void *sim_realloc(void *o, size_t n);
void *sim_native_realloc(void *o, size_t n) { return n && no_memory() ? nullptr : sim_realloc(o, n); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
static std::map<void *, size_t> maps_;
void *sim_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    tick("mmap");
    void *p;
    if (fd >= 0 && !(flags & MAP_ANONYMOUS)) {
        auto f = get(fd); if (!f || f->kind != K_FILE) { errno = f ? EACCES : EBADF; return MAP_FAILED; }
        if (off & 4095) { errno = EINVAL; return MAP_FAILED; }
        if (file_fault("mmap_error", "", -1)) return MAP_FAILED;
        p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return p;
        size_t have = (size_t)off < f->ino->data.size() ? f->ino->data.size() - off : 0; size_t k = std::min(n, have); memcpy(p, f->ino->data.data() + off, k);
        size_t valid = (k + 4095) & ~(size_t)4095; if (valid < n) mprotect((char *)p + valid, n - valid, PROT_NONE); // beyond the file: SIGBUS
    } else p = mmap(a, n, prot, flags, -1, 0);
    if (p != MAP_FAILED) { n_map++; b_map += (n + 4095) & ~(size_t)4095; maps_[p] = n; }
    return p;
}
int sim_munmap(void *p, size_t n) {
    tick("munmap"); char *lo = (char *)p, *hi = lo + ((n + 4095) & ~(size_t)4095); if (((size_t)lo & 4095) || !n) ERR(EINVAL);
    bool any = false; // what is left of a mapping stays mapped
    for (auto it = maps_.begin(); it != maps_.end();) {
        char *a = (char *)it->first, *b = a + ((it->second + 4095) & ~(size_t)4095);
        if (b <= lo || a >= hi) { ++it; continue; }
        any = true; it = maps_.erase(it); n_map--; b_map -= b - a;
        if (a < lo) { maps_[a] = lo - a; n_map++; b_map += lo - a; }
        if (b > hi) { maps_[hi] = b - hi; n_map++; b_map += b - hi; }
        char *x = std::max(a, lo), *y = std::min(b, hi); munmap(x, y - x);
    }
    if (!any) { ev("munmap of an unknown mapping"); count("munmap_unknown"); }
    return 0;
}
// ------------------------------------------------------------------------------------------------ epoll, poll, select
int sim_epoll_create(int n) { tick("epoll_create"); if (n <= 0) ERR(EINVAL); auto f = std::make_shared<File>(); f->kind = K_EPOLL; return alloc_fd(f); }
int sim_epoll_create1(int) { return sim_epoll_create(1); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
    tick("epoll_ctl"); auto E = get(ep); auto f = get(fd);
    if (!E || E->kind != K_EPOLL || !f) { ev("epoll_ctl(%d) -> EBADF", fd); ERR(EBADF); }
    if (f->kind == K_FILE) { ev("epoll_ctl(%d) -> EPERM (regular file)", fd); ERR(EPERM); }
    auto it = E->regs.find(fd); bool have = it != E->regs.end() && it->second.f.lock() == f;
    int r = 0;
    if (op == EPOLL_CTL_ADD && !have && fd != watch_always && coin(sysf.epoll_ctl_fail_permille, "watch_fail")) { r = choose(2, "why") ? ENOSPC : ENOMEM; fault("epoll_ctl_error"); watch_faults++; file_errors.push_back({"watch", "", fd, r}); socket_faults++; accept_faults++; ev("epoll_ctl(add, %d) -> error %d", fd, r); ERR(r); }
    if (op == EPOLL_CTL_ADD) { if (have) r = EEXIST; else E->regs[fd] = {f, e->events, e->data.u64}; }
    else if (op == EPOLL_CTL_MOD) { if (!have) r = ENOENT; else E->regs[fd] = {f, e->events, e->data.u64}; }
    else if (op == EPOLL_CTL_DEL) { if (!have) r = ENOENT; else E->regs.erase(fd); } else r = EINVAL;
    ev("epoll_ctl(%s, %d, %s%s) -> %d", op == 1 ? "add" : op == 2 ? "del" : "mod", fd, op != 2 && (e->events & EPOLLIN) ? "in " : "", op != 2 && (e->events & EPOLLOUT) ? "out" : "", r);
    if (r) ERR(r); return 0;
}
static int collect(const FileP &E, struct epoll_event *out, int max) {
    std::vector<std::pair<int, u32>> rd;
    for (auto &kv : E->regs) if (auto f = kv.second.f.lock()) { u32 e = ready_events(f.get()) & (kv.second.events | EPOLLERR | EPOLLHUP); if (e) rd.push_back({kv.first, e}); }
    int n = std::min<int>(rd.size(), max);
    for (int i = 0; i < n; i++) { // the order in which the kernel reports is ours
        if (i + 1 < (int)rd.size()) { size_t k = i + choose(rd.size() - i, "epoll_order"); std::swap(rd[i], rd[k]); }
        out[i].events = rd[i].second; out[i].data.u64 = E->regs[rd[i].first].data;
    }
    return n;
}
int sim_epoll_wait(int ep, struct epoll_event *out, int max, int timeout) {
    if (in_child) violate("second-copy", "the forked copy of the program runs on: it waits for events");
    tick("epoll_wait"); auto E = get(ep); if (!E || E->kind != K_EPOLL) ERR(EBADF);
    if (max <= 0) ERR(EINVAL);
    if (coin(sysf.epoll_eintr_permille, "epoll_eintr")) { fault("epoll_EINTR"); ev("epoll_wait -> EINTR"); ERR(EINTR); }
    u64 dl = timeout < 0 ? ~0ull : now_ns() + (u64)timeout * MS;
    int n = collect(E, out, max);
    if (!n && timeout != 0) {
        File *e = E.get();
        if (on_block) on_block(dl);
        wait_until([e] { for (auto &kv : e->regs) if (auto f = kv.second.f.lock()) if (ready_events(f.get()) & (kv.second.events | EPOLLERR | EPOLLHUP)) return true; return false; }, dl);
        n = collect(E, out, max);
    }
    std::string s; for (int i = 0; i < n; i++) s += " " + std::to_string(out[i].data.fd) + ":" + ((out[i].events & EPOLLIN) ? "i" : "") + ((out[i].events & EPOLLOUT) ? "o" : "") + ((out[i].events & EPOLLERR) ? "e" : "") + ((out[i].events & EPOLLHUP) ? "h" : "");
    if (n || timeout != 0) ev("epoll_wait(%d ms) -> %d%s", timeout, n, s.c_str());
    if (n > 1) count("epoll_batches");
    return n;
}
static u32 poll_rev(struct pollfd *p) {
    auto f = get(p->fd); if (p->fd < 0) return 0; if (!f) return POLLNVAL; u32 e = ready_events(f.get()); u32 r = 0;
    if (e & EPOLLIN) r |= POLLIN; if (e & EPOLLOUT) r |= POLLOUT; if (e & EPOLLERR) r |= POLLERR; if (e & EPOLLHUP) r |= POLLHUP;
    return r & (p->events | POLLERR | POLLHUP);
}
int sim_poll(struct pollfd *p, nfds_t n, int timeout) {
    tick("poll"); auto cnt = [&] { int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = poll_rev(&p[i]); if (p[i].revents) c++; } return c; };
    int c = cnt(); if (!c && timeout != 0) { blocked_call([&] { return cnt() > 0; }, timeout < 0 ? ~0ull : now_ns() + timeout * MS, "poll"); c = cnt(); }
    return c;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    tick("select"); fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi); if (r) ri = *r; if (w) wi = *w;
    auto test = [&](bool set) { int c = 0; if (set) { if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); } for (int i = 0; i < n; i++) { if (FD_ISSET(i, &ri) && fd_readable(i)) { c++; if (set) FD_SET(i, r); } if (FD_ISSET(i, &wi) && fd_writable(i)) { c++; if (set) FD_SET(i, w); } } return c; };
    u64 dl = tv ? now_ns() + tv->tv_sec * SEC + tv->tv_usec * US : ~0ull;
    if (!test(false) && dl > now_ns()) blocked_call([&] { return test(false) > 0; }, dl, "select");
    return test(true);
}
// ------------------------------------------------------------------------------------------------ descriptors
int sim_close(int fd) { tick("close"); if (!get(fd)) { ev("close(%d) -> EBADF", fd); count("close_ebadf"); ERR(EBADF); } ev("close(%d)", fd); do_close(fd); return 0; }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); tick("fcntl"); auto f = get(fd); if (!f) ERR(EBADF);
    if (cmd == F_GETFL) return (f->nonblock ? O_NONBLOCK : 0) | (f->append ? O_APPEND : 0) | (f->wr ? (f->rd ? O_RDWR : O_WRONLY) : O_RDONLY);
    if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; ev("fcntl(%d, %s)", fd, f->nonblock ? "nonblocking" : "blocking"); return 0; }
    if (cmd == F_GETFD) return fd_cloexec[fd] ? FD_CLOEXEC : 0; if (cmd == F_SETFD) { fd_cloexec[fd] = arg & FD_CLOEXEC; return 0; }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int n = alloc_fd(f); if (n >= 0) fd_cloexec[n] = cmd == F_DUPFD_CLOEXEC; return n; }
    ERR(EINVAL);
}
int sim_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); int *v = va_arg(ap, int *); va_end(ap); auto f = get(fd); if (!f) ERR(EBADF); if (req == 0x5421) { f->nonblock = *v; return 0; } ERR(ENOTTY); }
int sim_dup(int fd) { auto f = get(fd); if (!f) ERR(EBADF); return alloc_fd(f); }
int sim_dup2(int o, int n) { tick("dup2"); auto f = get(o); if (!f || n < 0 || n >= NFD) ERR(EBADF); if (in_child && ++child_dups == child_dup_fail) { ev("dup2(%d, %d) -> EMFILE", o, n); ERR(EMFILE); } if (o == n) return n; if (fds[n]) do_close(n); fds[n] = f; fd_cloexec[n] = false; ev("dup2(%d, %d)", o, n); return n; }
ssize_t sim_read(int fd, void *b, size_t n) {
    tick("read"); auto f = get(fd); if (!f) { ev("read(%d) -> EBADF", fd); ERR(EBADF); }
    if (f->kind == K_SOCK || f->kind == K_PIPE_R) { if (f->kind == K_PIPE_R && file_fault("read_error", "", fd)) { ev("read(%d) -> error %d", fd, errno); return -1; } return stream_recv(f, fd, b, n, false, false, "read"); }
    if (f->kind == K_FILE) { if (!f->rd) ERR(EBADF); return file_read(f, b, n, &f->off, "read"); }
    if (f->kind == K_STD) return 0;
    ERR(EINVAL);
}
ssize_t sim_write(int fd, const void *b, size_t n) {
    tick("write"); auto f = get(fd); if (!f) { ev("write(%d) -> EBADF", fd); ERR(EBADF); }
    if (f->kind == K_STD) return std_write(f->std_fd, b, n);
    if (f->kind == K_SOCK || f->kind == K_PIPE_W) { if (f->kind == K_PIPE_W && file_fault("write_error", "", fd)) { ev("write(%d) -> error %d", fd, errno); return -1; } return stream_send(f, fd, b, n, 0, "write"); }
    if (f->kind == K_FILE) { if (!f->wr) ERR(EBADF); if (f->append) f->off = f->ino->data.size(); return file_write(f, b, n, &f->off, "write"); }
    ERR(EBADF);
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return sim_write(fd, s.data(), s.size()); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { tick("pread"); auto f = get(fd); if (!f || f->kind != K_FILE) ERR(EBADF); size_t o = off; return file_read(f, b, n, &o, "pread"); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) { tick("pwrite"); auto f = get(fd); if (!f || f->kind != K_FILE) ERR(EBADF); size_t o = off; return file_write(f, b, n, &o, "pwrite"); }
off_t sim_lseek(int fd, off_t off, int wh) {
    tick("lseek"); auto f = get(fd); if (!f) ERR(EBADF); if (f->kind != K_FILE) ERR(ESPIPE); if (file_fault("lseek_error", f->path)) { ev("lseek(%d) -> error", fd); return -1; }
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->off : (i64)f->ino->data.size(); if (wh < 0 || wh > 2 || base + off < 0) ERR(EINVAL); f->off = base + off; return f->off;
}
int sim_open(const char *path, int flags, ...) {
    tick("open"); if (file_fault("open_error", path)) { ev("open(%s) -> error %d", path, errno); return -1; }
    int fd = fd_of_path(path, flags); ev("open(%s) -> %d", path, fd); return fd;
}
int sim_openat(int, const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_mkstemps(char *t, int sl) {
    tick("mkstemps"); size_t n = strlen(t); if ((int)n < 6 + sl || strncmp(t + n - sl - 6, "XXXXXX", 6)) ERR(EINVAL);
    if (file_fault("mkstemps_error", t)) return -1;
    for (int k = 0; k < 10; k++) { for (int i = 0; i < 6; i++) t[n - sl - 6 + i] = "abcdefghijklmnopqrstuvwxyz0123456789"[entropy() % 36]; if (!vfs.count(t)) break; }
    int fd = fd_of_path(t, O_RDWR | O_CREAT | O_EXCL); ev("mkstemps(%s) -> %d", t, fd); return fd;
}
int sim_mkstemp(char *t) { return sim_mkstemps(t, 0); }
int sim_unlink(const char *p) { tick("unlink"); auto it = vfs.find(p); if (it == vfs.end()) ERR(ENOENT); it->second->unlinked = true; vfs.erase(it); ev("unlink(%s)", p); return 0; }
int sim_access(const char *p, int) { tick("access"); if (vfs.count(p)) return 0; ERR(ENOENT); }
static void fill_stat(const InodeP &i, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = i->dir ? S_IFDIR | 0755 : S_IFREG | i->mode; st->st_size = i->data.size(); st->st_nlink = i->unlinked ? 0 : 1; st->st_mtime = i->mtime; st->st_blksize = 4096; st->st_blocks = (i->data.size() + 511) / 512; }
int sim_stat(const char *p, struct stat *st) { tick("stat"); if (file_fault("stat_error", p)) return -1; auto it = vfs.find(p); if (it == vfs.end()) ERR(ENOENT); fill_stat(it->second, st); return 0; }
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) {
    tick("fstat"); auto f = get(fd); if (!f) ERR(EBADF); if (file_fault("fstat_error", f->path, fd)) { ev("fstat(%d) -> error", fd); return -1; }
    if (f->ino) fill_stat(f->ino, st); else { memset(st, 0, sizeof *st); st->st_mode = f->kind == K_PIPE_R || f->kind == K_PIPE_W ? S_IFIFO | 0600 : S_IFSOCK | 0777; } return 0;
}
ssize_t sim_sendfile(int o, int i, off_t *off, size_t n) {
    tick("sendfile"); auto fo = get(o), fi = get(i); if (!fo || !fi) { ev("sendfile -> EBADF"); ERR(EBADF); }
    if (fi->kind != K_FILE || !fi->rd) { ev("sendfile(%d<-%d) -> EINVAL", o, i); ERR(EINVAL); }
    if (fo->kind == K_FILE && (!fo->wr)) ERR(EBADF);
    if (fo->kind == K_FILE && fo->append) ERR(EINVAL);
    if (file_fault("sendfile_error", fi->path)) { ev("sendfile -> error %d", errno); return -1; }
    if (on_file_read) on_file_read(fi->ino, fi->path);
    size_t at = off ? (size_t)*off : fi->off; if (off && *off < 0) ERR(EINVAL); size_t have = at < fi->ino->data.size() ? fi->ino->data.size() - at : 0; size_t k = std::min(n, have); if (k > 0x7ffff000) k = 0x7ffff000;
    if (k == 0) { ev("sendfile(%d<-%d, %zu, %zu) -> 0", o, i, at, n); return 0; }
    k = shorten(k, file_faults.short_permille, "short_sendfile");
    std::string d = fi->ino->data.substr(at, k); ssize_t r;
    if (fo->kind == K_SOCK || fo->kind == K_PIPE_W) r = stream_send(fo, o, d.data(), d.size(), 0, "sendfile");
    else if (fo->kind == K_FILE) r = file_write(fo, d.data(), d.size(), &fo->off, "sendfile");
    else if (fo->kind == K_STD) r = std_write(fo->std_fd, d.data(), d.size()); else ERR(EINVAL);
    if (r > 0) { if (off) *off += r; else fi->off += r; }
    return r;
}
// ------------------------------------------------------------------------------------------------ sockets
int sim_socket(int fam, int type, int) {
    tick("socket"); if (coin(sysf.socket_fail_permille, "socket_fail")) { socket_faults++; fault("socket_error"); ev("socket -> EMFILE"); ERR(EMFILE); }
    if (fam != AF_INET && fam != AF_INET6) { ev("socket(family %d) -> EAFNOSUPPORT", fam); ERR(EAFNOSUPPORT); }
    auto f = std::make_shared<File>(); f->family = fam; f->type = type & 0xf; f->nonblock = type & SOCK_NONBLOCK;
    if (f->type == SOCK_DGRAM) { f->kind = K_UDP; f->udp = std::make_shared<Udp>(); f->udp->local.family = fam; udps.push_back(f->udp); } else f->kind = K_RAWSOCK;
    int fd = alloc_fd(f); if (fd < 0) socket_faults++; ev("socket(%s) -> %d", f->type == SOCK_DGRAM ? "udp" : "tcp", fd); return fd;
}
int sim_setsockopt(int fd, int, int opt, const void *, socklen_t) { tick("setsockopt"); auto f = get(fd); if (!f) ERR(EBADF); if (opt == SO_REUSEADDR) f->reuse = true; return 0; }
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l) {
    tick("getsockopt"); auto f = get(fd); if (!f) ERR(EBADF); int r = 0;
    if (lvl == SOL_SOCKET && opt == SO_ERROR) { if (f->ep) { r = f->ep->so_err; f->ep->so_err = 0; } else if (f->udp) { r = f->udp->so_err; f->udp->so_err = 0; } ev("getsockopt(%d, SO_ERROR) -> %d", fd, r); }
    else if (lvl == SOL_SOCKET && opt == SO_TYPE) r = f->type;
    if (*l >= 4) { memcpy(v, &r, 4); *l = 4; } return 0;
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t l) {
    tick("bind"); auto f = get(fd); if (!f) ERR(EBADF); Addr a = from_sa(sa, l); if (a.family != f->family) { ev("bind(%d) -> EINVAL (family %d, length %u)", fd, sa->sa_family, l); ERR(EINVAL); }
    if (f->kind == K_UDP) { if (a.port == 0) a.port = next_port++; else for (auto &w : udps) if (auto u = w.lock()) if (u != f->udp && u->local.port == a.port) { ev("bind(%d) -> EADDRINUSE", fd); ERR(EADDRINUSE); } f->udp->local = a; f->bound = a; f->has_bound = true; ev("bind(%d, udp)", fd); return 0; }
    if (a.port == 0) a.port = next_port++; 
    if (find_listener(a)) { ev("bind(%d) -> EADDRINUSE", fd); ERR(EADDRINUSE); }
    f->bound = a; f->has_bound = true; ev("bind(%d, %s)", fd, a.str().c_str()); return 0;
}
int sim_listen(int fd, int n) {
    tick("listen"); auto f = get(fd); if (!f) ERR(EBADF); if (f->kind != K_RAWSOCK && f->kind != K_LISTEN) ERR(EOPNOTSUPP);
    if (!f->has_bound) { f->bound.family = f->family; f->bound.port = next_port++; f->has_bound = true; }
    f->kind = K_LISTEN; f->lst = std::make_shared<Listener>(); f->lst->addr = f->bound; f->lst->max = n < 1 ? 1 : n > 4096 ? 4096 : n; sut_listeners[f->bound] = f->lst; ev("listen(%d) on %s", fd, f->bound.str().c_str()); return 0;
}
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *l, int flags) {
    tick("accept"); auto f = get(fd); if (!f) { ev("accept(%d) -> EBADF", fd); ERR(EBADF); } if (f->kind != K_LISTEN) { ev("accept(%d) -> EINVAL", fd); ERR(EINVAL); }
    if (!f->lst->open) { ev("accept(%d) -> EINVAL", fd); ERR(EINVAL); }
    if (!f->lst->backlog.empty() && coin(sysf.accept_fail_permille, "accept_fail")) { accept_faults++; fault("accept_error"); ev("accept(%d) -> error %d", fd, sysf.accept_errno); ERR(sysf.accept_errno); }
    if (f->lst->backlog.empty()) {
        if (f->nonblock) { ev("accept(%d) -> EAGAIN", fd); ERR(EAGAIN); }
        auto L = f->lst; blocked_call([L] { return !L->backlog.empty() || !L->open; }, ~0ull, "accept"); if (L->backlog.empty()) ERR(EINVAL);
    }
    EpP e = f->lst->backlog.front();
    auto nf = std::make_shared<File>(); nf->kind = K_SOCK; nf->ep = e; nf->family = f->family; nf->nonblock = flags & SOCK_NONBLOCK;
    int nfd = alloc_fd(nf); if (nfd < 0) { accept_faults++; ev("accept(%d) -> EMFILE", fd); return -1; }
    f->lst->backlog.pop_front(); to_sa(e->remote, sa, l); ev("accept(%d) -> %d (%s)", fd, nfd, e->name.c_str()); return nfd;
}
int sim_accept(int fd, struct sockaddr *sa, socklen_t *l) { return sim_accept4(fd, sa, l, 0); }
int sim_connect(int fd, const struct sockaddr *sa, socklen_t l) {
    tick("connect"); auto f = get(fd); if (!f) ERR(EBADF); Addr to = from_sa(sa, l);
    if (f->kind == K_UDP) { if (sa->sa_family == AF_UNSPEC) { f->udp->connected = false; return 0; } if (to.family != f->family) ERR(EAFNOSUPPORT); f->udp->remote = to; f->udp->connected = true; if (!f->udp->local.port) { f->udp->local.family = f->family; f->udp->local.port = next_port++; } ev("connect(%d, udp %s)", fd, to.str().c_str()); return 0; }
    if (f->kind == K_SOCK) { if (f->ep->established) ERR(EISCONN); if (f->ep->so_err) { int e = f->ep->so_err; f->ep->so_err = 0; ERR(e); } ERR(f->ep->connecting ? EALREADY : ECONNABORTED); }
    if (f->kind != K_RAWSOCK) ERR(EINVAL);
    if (to.family != f->family) { ev("connect(%d) -> EAFNOSUPPORT", fd); ERR(EAFNOSUPPORT); }
    EpP c = std::make_shared<Endpoint>(), s = std::make_shared<Endpoint>(); Addr from = f->has_bound ? f->bound : v4("10.0.0.1", next_port++); if (to.family == AF_INET6 && !f->has_bound) { memset(from.ip, 0, 16); from.family = AF_INET6; from.ip[0] = 0xfd; from.ip[15] = 1; }
   
    c->local = from; c->remote = to; s->local = to; s->remote = from; c->name = "conn" + std::to_string(from.port); s->name = "srv" + std::to_string(from.port);
    c->prof = s->prof = default_profile; c->rcvcap = s->rcvcap = default_rcvcap; c->peer = s; s->peer = c; keepalive.push_back(c); keepalive.push_back(s); c->connecting = true;
    auto al = actor_listeners.find(to); ConnectPolicy pol; std::shared_ptr<Listener> L;
    if (al != actor_listeners.end()) { if (al->second.pol) pol = al->second.pol(); } else { L = find_listener(to); if (!L) pol.mode = 1; pol.delay = 50 * US; }
    f->ep = c; f->kind = K_SOCK; f->connecting = true;
    if (pol.mode == 5) { f->kind = K_RAWSOCK; f->ep = nullptr; ev("connect(%d, %s) -> error %d at once", fd, to.str().c_str(), pol.err); fault("connect_error"); ERR(pol.err); }
    ev("connect(%d, %s) starts", fd, to.str().c_str());
    auto cb = al != actor_listeners.end() ? al->second.cb : std::function<void(EpP)>();
    if (pol.mode == 3) { fault("connect_no_answer"); after(127 * SEC, [c] { if (!c->closed) { c->so_err = ETIMEDOUT; c->was_rst = true; c->connecting = false; ev("%s: connect gives up", c->name.c_str()); } }); }
    else after(pol.delay, [c, s, pol, cb, L] {
        if (c->closed) return;
        c->connecting = false;
        if (pol.mode == 1 || pol.mode == 2) { fault(pol.mode == 1 ? "connect_refused" : "connect_unreachable"); c->so_err = pol.mode == 1 ? ECONNREFUSED : EHOSTUNREACH; c->was_rst = true; ev("%s: %s", c->name.c_str(), pol.mode == 1 ? "refused" : "unreachable"); return; }
        c->established = s->established = true; ev("%s: established", c->name.c_str());
        if (pol.mode == 4) { fault("reset_after_connect"); s->reset(); }
        else if (cb) cb(s); else if (L && L->open && (int)L->backlog.size() <= L->max) { L->backlog.push_back(s); if (on_backlog) on_backlog(s); } else s->reset();
    });
    if (f->nonblock) { ev("connect(%d) -> EINPROGRESS", fd); ERR(EINPROGRESS); }
    blocked_call([c] { return c->established || c->so_err; }, ~0ull, "connect");
    if (c->so_err) { int e = c->so_err; c->so_err = 0; ERR(e); }
    return 0;
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *sa, socklen_t *sl) {
    tick("recv"); auto f = get(fd); if (!f) { ev("recv(%d) -> EBADF", fd); ERR(EBADF); }
    if (f->kind == K_UDP) {
        auto u = f->udp; if (u->so_err) { int e = u->so_err; u->so_err = 0; ev("recv(%d) -> error %d", fd, e); ERR(e); }
        if (u->q.empty()) { if (f->nonblock || (flags & MSG_DONTWAIT)) { ev("recv(%d) -> EAGAIN", fd); ERR(EAGAIN); } blocked_call([u] { return !u->q.empty() || u->so_err; }, ~0ull, "recv"); if (u->q.empty()) ERR(ECONNREFUSED); }
        auto p = u->q.front(); if (!(flags & MSG_PEEK)) u->q.pop_front(); size_t k = std::min(n, p.second.size()); memcpy(b, p.second.data(), k); if (sa) to_sa(p.first, sa, sl); ev("recv(%d) -> datagram %zu", fd, k); return (flags & MSG_TRUNC) ? p.second.size() : k;
    }
    if (f->kind == K_RAWSOCK || f->kind == K_LISTEN) ERR(ENOTCONN); if (f->kind != K_SOCK) ERR(ENOTSOCK);
    if (sa && sl) *sl = 0;
    return stream_recv(f, fd, b, n, flags & MSG_PEEK, flags & MSG_DONTWAIT, "recv");
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, nullptr, nullptr); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t sl) {
    tick("send"); auto f = get(fd); if (!f) { ev("send(%d) -> EBADF", fd); ERR(EBADF); }
    if (f->kind == K_UDP) {
        auto u = f->udp; Addr to = sa ? from_sa(sa, sl) : u->remote; if (!sa && !u->connected) ERR(EDESTADDRREQ);
        if (u->so_err) { int e = u->so_err; u->so_err = 0; ev("send(%d) -> error %d", fd, e); ERR(e); }
        if (!u->local.port) u->local.port = next_port++;
        u64 d = udp_tx_fate ? udp_tx_fate() : 100 * US; std::string s((const char *)b, n); Addr from = u->local; if (from.family == AF_INET && !memcmp(from.ip, "\0\0\0\0", 4)) memcpy(from.ip, "\x0a\0\0\1", 4);
        ev("send(%d, datagram %zu to %s)%s", fd, n, to.str().c_str(), d == ~0ull ? " LOST" : ""); if (on_udp_send) on_udp_send(from, to, s);
        if (d != ~0ull) after(d, [to, from, s] { auto it = udp_actors.find(to); if (it != udp_actors.end()) it->second(from, s); else udp_icmp_refused(from, to); }); else fault("query_lost");
        return n;
    }
    if (f->kind == K_RAWSOCK || f->kind == K_LISTEN) { errno = ENOTCONN; return -1; } if (f->kind != K_SOCK) ERR(ENOTSOCK);
    return stream_send(f, fd, b, n, fl, "send");
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, nullptr, 0); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return sim_sendto(fd, s.data(), s.size(), fl, (sockaddr *)m->msg_name, m->msg_namelen); }
int sim_shutdown(int fd, int how) {
    tick("shutdown"); auto f = get(fd); if (!f) ERR(EBADF); ev("shutdown(%d, %d)", fd, how);
    if (f->kind == K_LISTEN) { // Linux: the socket stops listening; queued connections are reset
        f->lst->open = false; for (auto &e : f->lst->backlog) e->reset(); f->lst->backlog.clear(); f->kind = K_RAWSOCK; return 0; }
    if (f->kind != K_SOCK || !f->ep->established) ERR(ENOTCONN);
    if (how == SHUT_WR || how == SHUT_RDWR) send_fin(f->ep); if (how == SHUT_RD || how == SHUT_RDWR) f->ep->rx_eof = true; return 0;
}
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *l) { tick("getsockname"); auto f = get(fd); if (!f) ERR(EBADF); Addr a = f->ep ? f->ep->local : f->udp ? f->udp->local : f->bound; if (!a.family) a.family = f->family; to_sa(a, sa, l); return 0; }
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *l) { tick("getpeername"); auto f = get(fd); if (!f) ERR(EBADF); if (f->udp) { if (!f->udp->connected) ERR(ENOTCONN); to_sa(f->udp->remote, sa, l); return 0; } if (!f->ep || !f->ep->established) ERR(ENOTCONN); to_sa(f->ep->remote, sa, l); return 0; }
int sim_pipe2(int p[2], int flags) {
    tick("pipe"); if (coin(sysf.pipe_fail_permille, "pipe_fail")) { fault("pipe_error"); ev("pipe -> EMFILE"); ERR(EMFILE); }
    EpP a = std::make_shared<Endpoint>(), b = std::make_shared<Endpoint>(); int n = ++mkcount; a->name = "pr" + std::to_string(n); b->name = "pw" + std::to_string(n); a->pipe = b->pipe = true; pair_up(a, b); b->prof = default_profile; b->prof.lat_min = b->prof.lat_max = 0; a->rcvcap = default_rcvcap;
    int r = mk(a, K_PIPE_R); if (r < 0) return -1; int w = mk(b, K_PIPE_W); if (w < 0) { do_close(r); errno = EMFILE; return -1; } 
    fds[r]->nonblock = fds[w]->nonblock = flags & O_NONBLOCK; fd_cloexec[r] = fd_cloexec[w] = flags & O_CLOEXEC;
    p[0] = r; p[1] = w; ev("pipe -> %d, %d", r, w); return 0;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
// ------------------------------------------------------------------------------------------------ stdio on virtual files (dns.c)
FILE *sim_fopen(const char *path, const char *mode) {
    tick("fopen"); auto it = vfs.find(path); if (it == vfs.end()) { ev("fopen(%s) -> ENOENT", path); errno = ENOENT; return nullptr; }
    if (coin(file_faults.eintr_permille, "fopen_fail")) { fault("fopen_error"); errno = EMFILE; return nullptr; }
    ev("fopen(%s)", path); const std::string &d = it->second->data; FILE *f = d.empty() ? fopen("/dev/null", "r") : nullptr; if (!f) { f = tmpfile(); if (f) { fwrite(d.data(), 1, d.size(), f); rewind(f); } } (void)mode; return f;
}
// ------------------------------------------------------------------------------------------------ process
pid_t sim_fork(void) {
    tick("fork"); if (coin(sysf.fork_fail_permille, "fork_fail")) { fault("fork_error"); ev("fork -> EAGAIN"); ERR(EAGAIN); }
    if (!rep) rep = (ChildRep *)mmap(nullptr, sizeof(ChildRep), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static int next_pid = 5000; int pid = next_pid++; child_dups = 0; child_dup_fail = coin(sysf.child_dup_fail_permille, "child_dup_fail") ? 1 + (int)choose(3, "which_dup") : 0; if (child_dup_fail) fault("dup2_error_in_child");
    u64 delay = choose(3, "exec_delay") ? range(1, 3000, "exec_us") * US : 0; FileP snap[NFD]; std::vector<FileP> h; for (int i = 0; i < NFD; i++) if ((snap[i] = fds[i])) h.push_back(fds[i]);
    memset(rep, 0, offsetof(ChildRep, blob)); ev("fork -> %d", pid); pid_t real = fork(); if (real < 0) ERR(EAGAIN);
    if (!real) { in_child = true; return 0; }
    int st = 0; while (waitpid(real, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) _exit(1); // the copy did something it must not, and has said so
    if (!WIFEXITED(st) || !rep->how) violate("crash:child", "the forked copy of the program died (wait status %d) before it executed the command", st);
    auto up = std::make_unique<Proc>(); Proc *p = up.get(); procs[pid] = std::move(up); p->pid = pid; p->forked_at = now_ns(); p->ready = std::make_shared<bool>(false); p->holds = h; for (auto &f : h) held.insert(f.get());
    p->sigpipe_ignored = rep->sigpipe; const char *b = rep->blob; int section = 0; for (size_t i = 0; i < rep->n; i += strlen(b + i) + 1) { std::string s = b + i; if (s == "\001") { section++; continue; } if (section == 0) p->cmd = s; else if (section == 1) p->argv.push_back(s); else p->env.push_back(s); }
    std::vector<std::pair<int, FileP>> keep; for (u32 i = 0; i < rep->nfd; i++) for (auto &f : h) if (f.get() == rep->f[i].f) { keep.push_back({rep->f[i].fd, f}); break; }
    int how = rep->how, code = rep->code; if (on_fork) on_fork(p);
    auto go = [p, keep, how, code] {
        if (p->ended) return;
        if (how == 2) { ev("process %d could not execute anything", p->pid); proc_end(p, (code & 0xff) << 8); return; }
        p->execed = true; std::vector<FileP> was = p->holds; p->holds.clear();
        for (auto &k : keep) { held.insert(k.second.get()); p->holds.push_back(k.second); File *f = k.second.get();
            if (k.first < 3) { p->std[k.first] = f->kind == K_PIPE_R || f->kind == K_PIPE_W ? f->ep : nullptr; p->std_kind[k.first] = f->kind == K_PIPE_R ? 'r' : f->kind == K_PIPE_W ? 'w' : f->kind == K_STD && f->std_fd == k.first ? 's' : 'x'; }
            else if (f->kind == K_PIPE_R || f->kind == K_PIPE_W) p->more_pipes++; }
        for (auto &f : was) let_go(f);
        ev("process %d executes %s", p->pid, p->cmd.c_str()); if (on_exec) on_exec(p);
    };
    if (delay) after(delay, go); else go();
    errno = 0; return pid;
}
int sim_execvp(const char *file, char *const argv[]) {
    if (!in_child) violate("exec", "the program replaced itself by %s", file);
    auto it = commands.find(file); int e = it == commands.end() ? ENOENT : it->second; ev("execvp(%s) -> %d", file, e); if (e) ERR(e);
    rep->sigpipe = sigpipe_ignored; rep->n = 0; put_blob(file); put_blob("\001"); for (int i = 0; argv[i]; i++) put_blob(argv[i]); put_blob("\001"); for (char **v = environ; v && *v; v++) put_blob(*v);
    rep->nfd = 0; for (int i = 0; i < NFD && rep->nfd < 64; i++) if (fds[i] && !fd_cloexec[i]) { rep->f[rep->nfd].fd = i; rep->f[rep->nfd++].f = fds[i].get(); }
    rep->how = 1; _exit(0);
}
int sim_execve(const char *f, char *const a[], char *const env[]) { environ = (char **)env; return sim_execvp(f, a); }
int sim_execv(const char *f, char *const a[]) { return sim_execvp(f, a); }
int sim_setenv(const char *n, const char *v, int o) { tick("setenv"); return setenv(n, v, o); }
pid_t sim_waitpid(pid_t pid, int *st, int flags) {
    tick("waitpid"); auto it = procs.find(pid); if (it == procs.end() || it->second->reaped) { ev("waitpid(%d) -> ECHILD", pid); ERR(ECHILD); }
    Proc *p = it->second.get();
    if (!p->ended) {
        if (flags & WNOHANG) { ev("waitpid(%d) -> running", pid); return 0; }
        if (coin(sysf.wait_eintr_permille, "wait_eintr")) { fault("waitpid_EINTR"); ev("waitpid(%d) -> EINTR", pid); ERR(EINTR); }
        blocked_call([p] { return p->ended; }, ~0ull, "waitpid");
    }
    p->reaped = true; if (st) *st = p->status; ev("waitpid(%d) -> status %d", pid, p->status); return pid;
}
pid_t sim_wait(int *st) { for (auto &p : procs) if (!p.second->reaped) return sim_waitpid(p.first, st, 0); ERR(ECHILD); }
int sim_pidfd_open(pid_t pid, unsigned flags) {
    tick("pidfd_open"); auto it = procs.find(pid); if (it == procs.end() || it->second->reaped) { ev("pidfd_open(%d) -> ESRCH", pid); ERR(ESRCH); }
    if (coin(sysf.pidfd_fail_permille, "pidfd_fail")) { fault("pidfd_error"); ev("pidfd_open(%d) -> EMFILE", pid); ERR(EMFILE); }
    auto f = std::make_shared<File>(); f->kind = K_PID; f->pid_ready = it->second->ready; f->nonblock = flags & O_NONBLOCK; int fd = alloc_fd(f); if (fd >= 0) fd_cloexec[fd] = true; ev("pidfd_open(%d) -> %d", pid, fd); return fd;
}
void sim_abort(void) { const char *t = last_stderr.c_str(); size_t n = last_stderr.size(); violate("crash:abort", "the program aborted; its last words: %s", n > 500 ? t + n - 500 : t); }
void sim_exit(int c) { run_sut_fini(); on_exit_called(c); }
void sim__exit(int c) { on_exit_called(c); }
typedef void (*sighandler)(int);
sighandler sim_signal(int s, sighandler h) { if (s == SIGPIPE) { sighandler o = sigpipe_ignored ? SIG_IGN : SIG_DFL; sigpipe_ignored = h != SIG_DFL; return o; } return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (s == SIGPIPE) { if (o) o->sa_handler = sigpipe_ignored ? SIG_IGN : SIG_DFL; if (n) sigpipe_ignored = n->sa_handler != SIG_DFL; } return 0; }
static bool sp_blocked = false, sp_pending = false;
int sim_sigmask(int how, const sigset_t *n, sigset_t *o) { if (o) { sigemptyset(o); if (sp_blocked) sigaddset(o, SIGPIPE); } if (n) { bool h = sigismember(n, SIGPIPE); if (how == SIG_BLOCK) { if (h) sp_blocked = true; } else if (how == SIG_UNBLOCK) { if (h) sp_blocked = false; } else sp_blocked = h; } return 0; }
int sim_sigpending(sigset_t *s) { sigemptyset(s); if (sp_pending) sigaddset(s, SIGPIPE); return 0; }
int sim_sigtimedwait(const sigset_t *, siginfo_t *, const struct timespec *) { sp_pending = false; return SIGPIPE; }
int sim_printf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); stdout_log.append(b, std::min<int>(n, sizeof b - 1)); return n; }
int sim_puts(const char *s) { stdout_log += s; stdout_log += '\n'; return 1; }
int sim_putchar(int c) { stdout_log += (char)c; return c; }
}
