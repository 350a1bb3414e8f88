// TCP sockets, listeners and connects (C05, C06): peers, network and oracles.
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <algorithm>
using namespace sim;

enum Op { END = 0, RECV = 1, SEND = 2, SENDFILE = 3, SLEEP = 4, YIELD = 5, CLOSE = 6, SENDSTR = 7, ACCEPT = 11, CONNECT = 12, NEWACC = 20, NEWCON = 21 };
enum Kind { MAIN, CONN, ACCEPTOR, CONNECTOR };
static bool C05, C06;

struct Conn {
    EpP ep, peer; int fd = -1, task = -1; std::string sent; size_t got = 0; bool closed_by_prog = false, dead = false; int left = 0, actions = 0, mode = 0; u64 seed = 0; size_t plan = 0; std::string seen; bool opened = false; u64 last_progress = 0; size_t log_seen = 0;
};
using ConnP = std::shared_ptr<Conn>;
struct Attempt { Addr to; int mode = 0; EpP ep; bool done = false, ok = false; ConnP conn; u64 delay = 0; };
struct Task {
    Kind kind = CONN; bool ended = false; int op = -1; i64 arg[10] = {0}; u64 t0 = 0, stall0 = 0; int left = 0; ConnP conn; std::string str; const char *ptr = nullptr; size_t log0 = 0; u64 acc_faults0 = 0, sock_faults0 = 0, watch0 = 0; size_t ff0 = 0;
    Addr at; bool up = false, closed = false; std::deque<EpP> arrivals; std::shared_ptr<Attempt> att; bool v6 = false; bool dup = false;
};
static std::vector<std::unique_ptr<Task>> T; static std::map<Endpoint *, ConnP> by_actor; static std::vector<ConnP> conns; static std::vector<std::shared_ptr<Attempt>> atts;
static std::string big; static int filefd = -1; static std::string fdata; static int never_fd; static EpP never_peer; static int main_left; static std::deque<std::pair<int, int>> todo; static uint16_t cport = 20000; static int err_armed = 0; static bool conn_send_heavy;
static size_t cap_pick(const char *t) { switch (choose(4, t)) { case 0: return 65536; case 1: return range(1, 20, t); case 2: return range(1, 3000, t); default: return 16384; } }
static NetProfile prof(bool mine) {
    NetProfile p; p.lat_min = 5 * US; p.lat_max = range(5, 4000, "lat") * US; p.seg_mode = choose(4, "seg");
    if (!mine) { if (coin(400, "shorts")) p.short_permille = (unsigned)range(50, 900, "short_pm"); if (coin(200, "eagains")) p.eagain_permille = (unsigned)range(20, 300, "eagain_pm"); }
    return p;
}
static std::string pattern(u64 seed, size_t off, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) { u64 x = (off + i) * 0x9E3779B97F4A7C15ull + seed * 7919; s[i] = (char)(x >> 37); } return s; }
static size_t size_pick(const char *t) { switch (choose(6, t)) { case 0: return range(1, 16, t); case 1: return range(1, 600, t); case 2: return 8192 - choose(3, t); case 3: return range(1, 8192, t); case 4: return range(1, 70000, t); default: return 1; } }

// ---- the other side
static void peer_send(ConnP c, size_t n) { std::string d = pattern(c->seed, c->sent.size(), n); size_t k = c->peer->send(d); if (k) { c->sent += d.substr(0, k); ev("peer of %s sends %zu", c->ep->name.c_str(), k); } }
static void peer_step(ConnP c) {
    if (c->peer->closed || c->peer->was_rst) return;
    switch (choose(8, "peer")) {
    case 0: case 1: case 2: if (!c->peer->fin_sent) peer_send(c, size_pick("peer_n")); break;
    case 3: c->peer->take(1 + choose(5000, "peer_take")); break;
    case 4: c->peer->take(); break;
    case 5: if (coin(350, "peer_end")) { unsigned k = choose(4, "peer_endk"); if (k == 0) { fault("peer_reset"); ev("peer of %s resets", c->ep->name.c_str()); c->peer->reset(); return; } if (k == 1) { fault("peer_half_close"); ev("peer of %s sends its last byte", c->ep->name.c_str()); c->peer->shutdown_wr(); } else { fault("peer_close"); c->peer->take(); ev("peer of %s closes", c->ep->name.c_str()); c->peer->close_(); return; } } break;
    case 6: if (coin(30, "hole")) { fault("blackhole"); ev("nothing reaches the peer of %s any more", c->ep->name.c_str()); c->peer->blackhole = true; } break;
    default: break;
    }
    if (c->actions-- > 0) { u64 d = range(1, coin(200, "peer_slow") ? 400000 : 6000, "peer_wait") * US; after(d, [c] { peer_step(c); }); }
    else if (c->mode == 0) { c->peer->on_event = [c] { if (!c->peer->rx.empty() && !c->peer->closed) c->peer->take(); }; c->peer->take(); }
    else if (c->mode == 1) { after(range(1, 50, "late_close") * MS, [c] { if (c->peer->closed || c->peer->was_rst) return; c->peer->take(); fault("peer_close"); ev("peer of %s closes", c->ep->name.c_str()); c->peer->close_(); }); }
}
static ConnP new_conn(EpP actor, EpP prog) {
    ConnP c = std::make_shared<Conn>(); c->peer = actor; c->ep = prog; c->seed = conns.size() + 1; conns.push_back(c); by_actor[actor.get()] = c; prog->log_tx = true;
    c->actions = (int)range(0, 14, "peer_actions"); c->mode = (int)choose(3, "peer_mode"); c->left = (int)range(1, 16, "conn_ops");
    return c;
}
static void client_arrives(Task *l) {
    Addr from = l->v6 ? l->at : v4("10.0.0.9", 0); if (l->v6) from.ip[15] = 9; else from.ip[3] = (uint8_t)range(2, 200, "client_ip"); from.port = ++cport; Addr to = l->at; if (l->v6) { to.ip[0] = 0xfd; to.ip[15] = 1; } else memcpy(to.ip, "\x0a\0\0\1", 4);
    EpP c = actor_connect(to, from, prof(true), prof(false), cap_pick("ccap"), cap_pick("scap")); ConnP k = new_conn(c, c->peer.lock());
    bool early_rst = coin(60, "early_rst");
    c->on_event = [kk = k, er = early_rst] { ConnP k = kk; bool early_rst = er; if (!k->peer->established || k->opened) return; k->opened = true; k->peer->on_event = nullptr; if (early_rst) { fault("reset_before_accept"); k->peer->reset(); } else peer_step(k); };
    ev("client %s connects", from.str().c_str());
}
static u64 slack(const Task &t) { return 2 * MS + (stall_total() - t.stall0); }

static ConnP conn_of_ep(Endpoint *e) { for (auto &c : conns) if (c->ep.get() == e) return c; return nullptr; }
static void bind_atts() { for (auto &a : atts) if (!a->done && !a->ep) for (auto &f : list_fds()) if (f.ep && f.ep->remote == a->to) a->ep = f.ep; }
static void check_fds(const char *when) {
    if (!C06) return;
    bind_atts();
    for (auto &f : list_fds()) {
        if (f.fd == never_fd || f.fd == filefd) continue;
        if (!strcmp(f.kind, "listener")) { bool known = false; for (auto &t : T) if (t->kind == ACCEPTOR && t->up && !t->closed && !t->ended && t->at.port == f.port) known = true; if (!known) violate("C06:leak", "%s: listening descriptor %d (port %u) is still open although its listener was closed or failed", when, f.fd, f.port); continue; }
        if (!strcmp(f.kind, "rawsocket")) { bool mid = false; for (auto &t : T) if ((t->kind == ACCEPTOR || t->kind == CONNECTOR) && t->op > 0 && !t->ended && (t->op == CONNECT || t->op == NEWACC)) mid = true; if (!mid) violate("C06:leak", "%s: unconnected socket %d is left open after a failed attempt", when, f.fd); continue; }
        if (f.ep) { bool ok = false; for (auto &c : conns) if (c->ep == f.ep && c->fd == f.fd) ok = true; for (auto &a : atts) if (a->ep == f.ep && !a->done) ok = true; for (auto &t : T) if (t->op == ACCEPT && !t->ended) ok = true;
            if (!ok) violate("C06:leak", "%s: socket %d (%s) is left open although its attempt failed", when, f.fd, f.ep->name.c_str()); }
    }
}
static void blocking(u64 deadline) {
    bind_atts();
    for (size_t i = 0; i < T.size(); i++) {
        Task &t = *T[i]; if (t.ended || t.op <= 0) continue; auto later = [&](u64 b) { return deadline > b && deadline > now_ns() + MS; };
        if (t.conn && C05) {
            int fd = t.conn->fd; Conn &c = *t.conn;
            if (t.op == RECV) {
                if (fd_readable(fd)) violate("C05:missed", "connection %s has data, an end or an error for the task that receives (%lld bytes wanted), but the program goes to sleep", c.ep->name.c_str(), (long long)t.arg[0]);
                if (t.arg[1] > 0 && later(t.t0 + t.arg[1] * MS + slack(t))) violate("C05:late", "a receive with a timeout of %lld ms started at %.3f ms; the program (now %.3f ms) sleeps until %.3f ms", (long long)t.arg[1], t.t0 / 1e6, now_ns() / 1e6, deadline == ~0ull ? -1. : deadline / 1e6);
            }
            if (t.op == SEND || t.op == SENDFILE || t.op == SENDSTR) {
                if (c.ep->tx_log.size() != c.log_seen) { c.log_seen = c.ep->tx_log.size(); c.last_progress = now_ns(); }
                if (fd_writable(fd)) violate("C05:missed", "connection %s could take more data from the task that sends (%lld bytes), but the program goes to sleep", c.ep->name.c_str(), (long long)t.arg[0]);
                if (t.arg[1] > 0 && later(std::max(t.t0, c.last_progress) + t.arg[1] * MS + slack(t))) violate("C05:late", "a send with a timeout of %lld ms started at %.3f ms, its last progress was at %.3f ms; the program (now %.3f ms) sleeps until %.3f ms", (long long)t.arg[1], t.t0 / 1e6, c.last_progress / 1e6, now_ns() / 1e6, deadline == ~0ull ? -1. : deadline / 1e6);
            }
        }
        if (t.kind == ACCEPTOR && t.op == ACCEPT && C06 && t.up && !t.closed) {
            if (!t.arrivals.empty() && sut_backlog(t.at) > 0) violate("C06:missed", "%zu connections are waiting at port %u for the task that accepts, but the program goes to sleep", t.arrivals.size(), t.at.port);
            if (t.arg[0] > 0 && later(t.t0 + t.arg[0] * MS + slack(t))) violate("C06:late", "accept was given %lld ms at %.3f ms; the program (now %.3f ms) sleeps until %.3f ms", (long long)t.arg[0], t.t0 / 1e6, now_ns() / 1e6, deadline == ~0ull ? -1. : deadline / 1e6);
        }
        if (t.kind == CONNECTOR && t.op == CONNECT && C06) {
            if (t.att->ep && (t.att->ep->established || t.att->ep->so_err || t.att->ep->was_rst)) violate("C06:missed", "the connection to %s was %s, but the program goes to sleep", t.att->to.str().c_str(), t.att->ep->so_err || t.att->ep->was_rst ? "refused" : "established");
            if (t.arg[1] > 0 && later(t.t0 + t.arg[1] * MS + slack(t))) violate("C06:late", "a connect was given %lld ms at %.3f ms; the program (now %.3f ms) sleeps until %.3f ms", (long long)t.arg[1], t.t0 / 1e6, now_ns() / 1e6, deadline == ~0ull ? -1. : deadline / 1e6);
        }
    }
    check_fds("while the program waits");
}
static void blocked_check() { if (longest_block_ns() > 0) { if (C05) violate("C05:blocks", "a socket operation kept the whole program from running for %.3f ms", longest_block_ns() / 1e6); if (C06) violate("C06:blocks", "a socket operation kept the whole program from running for %.3f ms", longest_block_ns() / 1e6); } }

static void setup() {
    const std::string &p = opt("prop"); C05 = p != "C06"; C06 = p != "C05";
    max_calls = 250000; on_block = blocking; livelock_class = C05 && !C06 ? "C05:livelock" : "C06:livelock";
    if (coin(200, "stalls")) { sysf.stall_permille = (unsigned)range(1, 20, "stall_pm"); sysf.stall_max = range(1, 30, "stall_max") * MS; }
    if (coin(200, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 300, "eintr_pm");
    if (C06 && coin(250, "accfail")) { sysf.accept_fail_permille = (unsigned)range(20, 300, "acc_pm"); static const int e[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, EPROTO}; sysf.accept_errno = e[choose(5, "acc_errno")]; }
    if (coin(100, "watchfail")) sysf.epoll_ctl_fail_permille = (unsigned)range(5, 200, "watch_pm");
    if (C06 && coin(150, "sockfail")) sysf.socket_fail_permille = (unsigned)range(20, 300, "sock_pm");
    if (C06 && coin(100, "fdlimit")) sysf.fd_limit = (int)range(8, 14, "fd_limit");
    default_profile = prof(false); default_rcvcap = cap_pick("dcap");
    big = pattern(4711, 0, 200000); fdata = pattern(815, 0, choose(5, "filekind") == 0 ? range(0, 10, "filesize") : range(1, 90000, "filesize"));
    vfs["/data"] = std::make_shared<Inode>(); vfs["/data"]->dir = true; auto f = std::make_shared<Inode>(); f->data = fdata; vfs["/data/f"] = f; filefd = fd_of_path("/data/f", O_RDONLY);
    if (C05 && coin(200, "fileshort")) file_faults.short_permille = (unsigned)range(50, 700, "fs_pm");
    if (C05 && coin(60, "fileerr")) { file_faults.fail_after = (int)choose(6, "fail_after"); file_faults.fail_errno = coin(500, "which") ? EIO : ENOMEM; }
    never_fd = sut_pipe_read_fd(&never_peer, 16); watch_always = never_fd;
    conn_send_heavy = coin(300, "sendheavy");
    T.emplace_back(new Task); T[0]->kind = MAIN;
    int nl = (int)choose(3, "listeners"), nc = (int)choose(4, "connectors"); if (!nl && !nc) nl = 1;
    for (int i = 0; i < nl; i++) {
        T.emplace_back(new Task); Task *t = T.back().get(); t->kind = ACCEPTOR; t->v6 = coin(200, "v6"); t->left = (int)range(2, 14, "acc_ops");
        t->at = v4("0.0.0.0", (uint16_t)(8000 + i)); if (t->v6) { t->at.family = 10; memset(t->at.ip, 0, 16); }
        if (i == 1 && C06 && coin(250, "dup")) { t->at = T[1]->at; t->v6 = T[1]->v6; t->dup = true; }
        todo.push_back({NEWACC, (int)T.size() - 1});
        int n = (int)choose(7, "clients"); u64 span = coin(400, "burst") ? 1 : range(1, 150, "span"); for (int k = 0; k < n; k++) { Task *l = t; if (!t->dup) after(range(1, span * 1000, "arrive") * US, [l] { client_arrives(l); }); }
    }
    for (int i = 0; i < nc; i++) { T.emplace_back(new Task); T.back()->kind = CONNECTOR; T.back()->left = (int)range(1, 5, "con_ops"); todo.push_back({NEWCON, (int)T.size() - 1}); }
    for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[choose(i, "order")]);
    on_backlog = [](EpP e) { for (auto &t : T) if (t->kind == ACCEPTOR && t->up && !t->closed && !t->ended && t->at.port == e->local.port) { t->arrivals.push_back(e); return; } };
}
static void idle() { count("runs_completed"); finish(); }
static void exited(int) { if (C05) violate("C05:exit", "the program ended although its main task waits for ever"); if (C06) violate("C06:exit", "the program ended although its main task waits for ever"); finish(); }
Harness sim::harness = {"tcp", setup, idle, exited};
static void mark() { u64 h = 1; for (auto &t : T) h = mix(h, t->ended ? 99 : t->op + 2); for (auto &c : conns) h = mix(h, (c->ep->closed ? 1 : 0) + (c->ep->was_rst ? 2 : 0) + (c->ep->rx_eof ? 4 : 0) + (c->ep->rx.empty() ? 8 : 0) + (c->ep->writable() ? 16 : 0)); state_mark(h); }
static i64 tmo() { return choose(3, "tmo") ? (i64)range(1, 60, "tmo_ms") : 0; }

extern "C" {
int hx_next(int id) {
    Task &t = *T[id]; mark(); blocked_check();
    if (t.ended || t.op > 0) { if (C05) violate("C05:task", "task %d continues although it ended or its operation has not returned", id); finish(); }
    advance_to(now_ns() + choose(3, "compute") * 7 * US);
    t.t0 = now_ns(); t.stall0 = stall_total(); t.acc_faults0 = accept_faults; t.sock_faults0 = socket_faults; t.watch0 = watch_faults; t.ff0 = file_faults.fail_after >= 0;
    auto go = [&](int op) { t.op = op; return op; };
    if (t.kind == MAIN) { if (todo.empty()) { t.arg[9] = never_fd; t.ended = true; return 0; } if (coin(200, "mainsleep")) { t.arg[0] = (i64)range(1, 20, "ms"); return go(SLEEP); } t.arg[0] = todo.front().second; int op = todo.front().first; todo.pop_front(); Task &n = *T[t.arg[0]]; if (op == NEWACC) { n.op = NEWACC; n.t0 = now_ns(); n.sock_faults0 = socket_faults; n.arg[0] = n.at.port; n.arg[1] = 64; n.str = n.v6 ? "::" : "0.0.0.0"; } return go(op); }
    if (t.left-- <= 0) { t.op = END; return 0; }
    if (t.kind == CONN) {
        Conn &c = *t.conn; if (c.dead) { t.op = END; return 0; }
        unsigned k = (unsigned)choose(conn_send_heavy ? 14 : 12, "conn_op");
        if (k <= 3) { t.arg[0] = (i64)std::min<size_t>(8192, size_pick("recv_n")); t.arg[1] = tmo(); return go(RECV); }
        if (k == 6 || k == 7 || k >= 12) { t.arg[0] = (i64)std::min(size_pick("send_n"), 60 * c.peer->rcvcap); if (k == 6 && coin(150, "zero")) t.arg[0] = 0; size_t off = choose(big.size() - t.arg[0], "send_off"); t.ptr = big.data() + off; t.arg[1] = tmo(); t.log0 = c.log_seen = c.ep->tx_log.size(); c.last_progress = now_ns(); t.str.assign(t.ptr, t.arg[0]); return go(SEND); }
        if (k == 8) { size_t off = choose(fdata.size() + 1, "fo"), n = fdata.size() > off ? std::min<size_t>(range(1, fdata.size() - off, "fn"), 60 * c.peer->rcvcap) : 1; if (coin(100, "beyond")) n += 1 + choose(100, "by"); t.arg[0] = (i64)n; t.arg[1] = tmo(); t.arg[2] = filefd; t.arg[3] = (i64)off; t.log0 = c.log_seen = c.ep->tx_log.size(); c.last_progress = now_ns(); t.str = off < fdata.size() ? fdata.substr(off, n) : ""; return go(SENDFILE); }
        if (k == 9) { size_t n = std::min(size_pick("str_n"), 60 * c.peer->rcvcap); t.str = std::string(n, 'a'); for (size_t i = 0; i < n; i++) t.str[i] = (char)('a' + (i * 7 + n) % 26); t.arg[0] = (i64)n; t.arg[1] = tmo(); t.log0 = c.log_seen = c.ep->tx_log.size(); c.last_progress = now_ns(); return go(SENDSTR); }
        if (k == 10) { t.arg[0] = (i64)range(1, 40, "ms"); return go(SLEEP); }
        if (k == 11 && coin(150, "close")) { c.dead = true; return go(CLOSE); }
        return go(YIELD);
    }
    unsigned k = (unsigned)choose(8, "op");
    if (t.kind == ACCEPTOR) {
        if (!t.up) { t.op = END; return 0; }
        if (k == 0) { t.arg[0] = (i64)range(1, 60, "ms"); return go(SLEEP); } if (k == 1) return go(YIELD);
        if (k == 2 && coin(150, "shut")) return go(CLOSE);
        t.arg[0] = choose(3, "acc_tmo") ? (i64)range(1, 80, "ms") : 0; return go(ACCEPT);
    }
    if (k == 0) { t.arg[0] = (i64)range(1, 60, "ms"); return go(SLEEP); } if (k == 1) return go(YIELD);
    auto a = std::make_shared<Attempt>(); atts.push_back(a); t.att = a; bool v6 = coin(150, "v6"); a->to = v4("10.9.8.7", (uint16_t)(9000 + atts.size())); if (v6) { a->to.family = 10; memset(a->to.ip, 0, 16); a->to.ip[0] = 0xfd; a->to.ip[15] = 7; }
    a->mode = choose(3, "con_ok") ? 0 : (int)choose(6, "con_mode"); bool late = coin(400, "late"); a->delay = (a->mode == 0 && !late) ? range(1, 2000, "con_delay") * US : range(1, 120000, "con_delay") * US;
    t.str = v6 ? "fd00::7" : "10.9.8.7"; t.arg[0] = a->to.port; t.arg[1] = choose(3, "con_tmo") ? (i64)range(1, 90, "ms") : 0;
    bool nobody = a->mode == 1 && coin(500, "nobody");
    if (!nobody) { static const int errs[] = {ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EACCES}; int e = errs[choose(4, "con_err")]; std::weak_ptr<Attempt> wa = a;
        actor_listen(a->to, [wa](EpP s) { auto a = wa.lock(); a->conn = new_conn(s, s->peer.lock()); a->conn->opened = true; a->ep = a->conn->ep; ConnP c = a->conn; after(US, [c] { peer_step(c); }); }, [wa, e] { ConnectPolicy p; auto a = wa.lock(); p.mode = a->mode; p.delay = a->delay; p.err = e; return p; }); }
    return go(CONNECT);
}
i64 hx_arg(int id, int k) { return T[id]->arg[k]; }
const void *hx_ptr(int id) { return T[id]->ptr; }
const char *hx_str(int id) { return T[id]->str.c_str(); }
void hx_data(int id, const void *d, i64 n) {
    Task &t = *T[id]; Conn &c = *t.conn; if (!C05) { c.got += n; return; }
    if (n > t.arg[0] || n < 0) violate("C05:overrun", "a receive of at most %lld bytes reports %lld", (long long)t.arg[0], (long long)n);
    if (n == 0 && t.arg[0] > 0) violate("C05:empty", "a receive of up to %lld bytes reports success with no data", (long long)t.arg[0]);
    if (c.got + n > c.sent.size()) violate("C05:invented", "the program received %zu bytes on %s although only %zu were sent", c.got + n, c.ep->name.c_str(), c.sent.size());
    if (memcmp(d, c.sent.data() + c.got, n)) { size_t i = 0; while (((const char *)d)[i] == c.sent[c.got + i]) i++; violate("C05:altered", "byte %zu received on %s differs from what was sent", c.got + i, c.ep->name.c_str()); }
    c.got += n;
}
int hx_conn(int id, int fd, const void *sa) {
    Task &t = *T[id]; EpP e = endpoint_of(fd); Addr peer = addr_of(sa);
    if (t.op == ACCEPT) {
        if (!e) { if (C06) violate("C06:phantom", "accept returned descriptor %d, which is not a connection", fd); finish(); }
        if (t.arrivals.empty() || t.arrivals.front() != e) { if (C06) violate("C06:order", "accept returned %s, but %s is the oldest connection not yet accepted", e->name.c_str(), t.arrivals.empty() ? "none" : t.arrivals.front()->name.c_str()); finish(); }
        t.arrivals.pop_front(); if (C06 && !(peer == e->remote)) violate("C06:peer", "accept reports %s as the peer of a connection from %s", peer.str().c_str(), e->remote.str().c_str());
    } else {
        if (!e) { if (C06) violate("C06:false-connect", "connecting to %s reported success with descriptor %d, which is not a connected socket", t.att->to.str().c_str(), fd); finish(); }
        if (C06 && !e->established) violate("C06:false-connect", "connecting to %s reported success although the connection was never established", t.att->to.str().c_str());
        if (C06 && !(e->remote == t.att->to)) violate("C06:peer", "connecting to %s gave a connection to %s", t.att->to.str().c_str(), e->remote.str().c_str());
    }
    ConnP c = conn_of_ep(e.get());
    if (!c) { if (t.op == CONNECT && t.att->mode == 4) { c = new_conn(e->peer.lock(), e); c->opened = true; } else { if (C06) violate("C06:phantom", "a connection nobody made was returned"); finish(); } }
    if (c->task >= 0) { if (C06) violate("C06:twice", "connection %s was returned twice", e->name.c_str()); finish(); }
    for (auto &f : list_fds()) if (f.fd == fd && !f.nonblock) { if (C06) violate("C06:blocks", "connection %s was returned in blocking mode: waiting for it stops every other task", e->name.c_str()); if (C05) violate("C05:blocks", "connection %s was returned in blocking mode: waiting for it stops every other task", e->name.c_str()); }
    T.emplace_back(new Task); Task &n = *T.back(); n.kind = CONN; n.conn = c; n.left = c->left; c->fd = fd; c->task = (int)T.size() - 1; count("connections"); return c->task;
}
void hx_ret(int id, int op, int ok, i64 rc, int err) {
    Task &t = *T[id]; blocked_check(); u64 el = now_ns() - t.t0;
    if (t.kind == MAIN) { t.op = -1; return; }
    ev("task %d: op %d -> %s %lld (errno %d)", id, op, ok ? "ok" : "failed", (long long)rc, ok ? 0 : err);
    if (op == 10) {
        t.op = -1; int fd = -1, b = sut_backlog(t.at, &fd); bool other = false; for (auto &x : T) if (x.get() != &t && x->kind == ACCEPTOR && x->up && !x->closed && !x->ended && x->at.port == t.at.port) other = true;
        if (C06 && ok && b < 0) violate("C06:listen", "listen on port %u reported success, but nothing listens there", t.at.port);
        if (C06 && ok && other) violate("C06:listen", "listen on port %u reported success although another listener has the port", t.at.port);
        if (C06 && !ok && socket_faults == t.sock_faults0 && !other) violate("C06:listen", "listen on port %u failed for no reason (errno %d)", t.at.port, err);
        t.up = ok; if (!ok) { count("listen_failures"); check_fds("after a failed listen"); }
        return;
    }
    if (t.op != op) { if (C05) violate("C05:task", "task %d reports operation %d but was doing %d", id, op, t.op); finish(); }
    t.op = -1; bool timed = t.arg[1] > 0 && el + MS >= (u64)t.arg[1] * MS;
    if (op == END) { t.ended = true; return; }
    if (op == ACCEPT) {
        t.op = -1; if (!ok) { bool tm = t.arg[0] > 0 && el + MS >= (u64)t.arg[0] * MS; if (C06 && !tm && !t.closed && accept_faults == t.acc_faults0) violate("C06:spurious", "accept gave up after %.3f ms of %lld with errno %d, although nothing failed", el / 1e6, (long long)t.arg[0], err); if (tm) count("accept_timeouts"); }
        else { count("accepted"); if (t.closed && C06) violate("C06:closed", "a closed listener accepted a connection"); } return;
    }
    if (op == CONNECT) {
        auto a = t.att; a->done = true; a->ok = ok; EpP e = a->ep;
        if (ok) { count("connected"); if (C06 && (a->mode == 1 || a->mode == 2 || a->mode == 3 || a->mode == 5)) violate("C06:false-connect", "connecting to %s reported success although it was %s", a->to.str().c_str(), a->mode == 3 ? "never answered" : "refused"); }
        else { count("connect_failures"); if (C06 && a->mode == 0 && !timed && socket_faults == t.sock_faults0 && !(a->ep && a->ep->was_rst)) violate("C06:spurious", "connecting to %s failed after %.3f ms of %lld although the other side accepted", a->to.str().c_str(), el / 1e6, (long long)t.arg[1]);
            check_fds("after a failed connect"); }
        return;
    }
    if (op == CLOSE && t.kind == ACCEPTOR) { t.closed = true; t.arrivals.clear(); if (C06 && sut_backlog(t.at) >= 0) violate("C06:closed", "a closed listener on port %u still takes connections", t.at.port); t.left = std::min(t.left, 2); return; }
    if (!t.conn) return;
    Conn &c = *t.conn; EpP e = c.ep;
    if (op == RECV) {
        if (ok) { count("receives"); if ((size_t)rc == 0 && t.arg[0] == 0) {} return; }
        if (C05) {
            if (e->was_rst) { count("recv_reset"); c.dead = true; return; }
            if (e->rx_eof && e->rx.empty() && !e->inflight) { count("recv_eof"); if (c.got != c.sent.size()) violate("C05:lost-tail", "the peer of %s sent %zu bytes and closed, the program saw only %zu before the end", e->name.c_str(), c.sent.size(), c.got); c.dead = true; return; }
            if (e->closed) { if (c.got != c.sent.size()) violate("C05:false-end", "the program reports the end of %s although the peer did not close it (%zu bytes of %zu received)", e->name.c_str(), c.got, c.sent.size()); c.dead = true; violate("C05:false-end", "the program closed %s although the peer did not", e->name.c_str()); }
            if (watch_faults != t.watch0) { count("recv_unwatched"); return; } // the system could not watch the descriptor: a failure is the right report
            if (timed) { count("recv_timeouts"); return; }
            violate("C05:spurious", "a receive failed after %.3f ms of %lld (errno %d) although the connection is sound", el / 1e6, (long long)t.arg[1], err);
        }
        if (e->was_rst || e->rx_eof || e->closed) c.dead = true;
        return;
    }
    if (op == SEND || op == SENDFILE || op == SENDSTR) {
        std::string put = e->tx_log.substr(std::min(t.log0, e->tx_log.size())); size_t want = (size_t)t.arg[0];
        if (C05) {
            if (put.size() > t.str.size() || memcmp(put.data(), t.str.data(), put.size())) { size_t i = 0; while (i < put.size() && i < t.str.size() && put[i] == t.str[i]) i++; violate("C05:sent-wrong", "%s of %zu bytes on %s put %zu bytes on the wire that differ at byte %zu from the given ones", op == SENDFILE ? "sendFile" : "a send", want, e->name.c_str(), put.size(), i); }
            if (ok && (size_t)rc != want) violate("C05:sent-short", "%s of %zu bytes reports success for %lld", op == SENDFILE ? "sendFile" : "a send", want, (long long)rc);
            if (ok && put.size() != want) violate("C05:sent-short", "%s of %zu bytes reports success, but only %zu were handed to the network", op == SENDFILE ? "sendFile" : "a send", want, put.size());
            if (ok) { count(op == SENDFILE ? "sent_files" : "sends"); if (want > 8192) count("sends_large"); }
            else {
                bool gone = e->was_rst || e->fin_sent || e->so_err || (e->peer.lock() && e->peer.lock()->closed), ferr = op == SENDFILE && (t.str.size() < want || (t.ff0 && file_faults.fail_after < 0));
                if (gone) { count("send_failed"); c.dead = true; } else if (ferr) count("sendfile_errors"); else if (timed) count("send_timeouts"); else if (watch_faults != t.watch0) count("send_unwatched");
                else violate("C05:spurious", "%s of %zu bytes failed after %.3f ms of %lld (errno %d) although the connection is sound", op == SENDFILE ? "sendFile" : "a send", want, el / 1e6, (long long)t.arg[1], err);
            }
        } else if (e->was_rst || e->closed) c.dead = true;
        return;
    }
    if (op == CLOSE) { c.closed_by_prog = true; if (C06 && !e->closed) violate("C06:leak", "closing %s left its descriptor open", e->name.c_str()); }
}
}
