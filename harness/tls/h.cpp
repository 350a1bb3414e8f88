// TLS sockets (C18): peers that speak TLS over the simulated network with the same OpenSSL, and the oracle.
#include "sim.h"
#include "cert.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <condition_variable>
#include <fcntl.h>
#include <mutex>
#include <thread>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
using namespace sim;
#define BAD(cls, ...) violate("C18:" cls, __VA_ARGS__)

// ---- OpenSSL: its randomness and clock are the simulation's; the peers run on a thread of their own, because the error
// queue is per thread and the program's must not be touched
static u64 rnd_state = 0x9E3779B97F4A7C15ull; static bool in_run; static int prog_ssl;
static int det_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; b[i] = (unsigned char)(rnd_state >> 24); } return 1; }
static int det_status() { return 1; }
static int det_seed(const void *, int) { return 1; }
static int det_add(const void *, int, double) { return 1; }
static RAND_METHOD det = {det_seed, det_bytes, nullptr, det_add, det_bytes, det_status};
extern "C" {
time_t ossl_time(time_t *t) { time_t v = in_run ? (time_t)(wall_ns() / 1000000000) : 1800000000; if (t) *t = v; return v; }
int ossl_gettimeofday(struct timeval *tv, void *) { i64 w = in_run ? wall_ns() : 1800000000ll * 1000000000; tv->tv_sec = w / 1000000000; tv->tv_usec = w % 1000000000 / 1000; return 0; }
}
static SSL_CTX *srv, *cli; static int mine_idx; static thread_local bool actor_thread;
static void ssl_made(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { if (!actor_thread) prog_ssl++; }
static void ssl_gone(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { if (!actor_thread) prog_ssl--; }
struct Helper {
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool have = false, done = false; std::thread th;
    void start() { th = std::thread([this] { actor_thread = true; std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [this] { return have; }); job(); have = false; done = true; cv.notify_all(); } }); th.detach(); }
    void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); have = true; done = false; cv.notify_all(); cv.wait(l, [this] { return done; }); }
};
static Helper *helper;
static void on_peer(std::function<void()> f) { if (!helper) { helper = new Helper; helper->start(); } helper->run(std::move(f)); }
static void shake(SSL *a, SSL *b) { for (int i = 0; i < 20; i++) { SSL_do_handshake(a); SSL_do_handshake(b); } char c[10]; SSL_write(a, "x", 1); SSL_read(b, c, 1); SSL_write(b, "x", 1); SSL_read(a, c, 1); }
__attribute__((constructor)) static void init() {
    OPENSSL_init_ssl(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_LOAD_CRYPTO_STRINGS | OPENSSL_INIT_ADD_ALL_CIPHERS | OPENSSL_INIT_ADD_ALL_DIGESTS, nullptr); RAND_set_rand_method(&det);
    mine_idx = CRYPTO_get_ex_new_index(CRYPTO_EX_INDEX_SSL, 0, nullptr, ssl_made, nullptr, ssl_gone);
    srv = SSL_CTX_new(TLS_server_method()); cli = SSL_CTX_new(TLS_client_method());
    BIO *b = BIO_new_mem_buf(KEY, -1); EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); BIO_free(b); b = BIO_new_mem_buf(CERT, -1); X509 *c = PEM_read_bio_X509(b, nullptr, nullptr, nullptr); BIO_free(b);
    if (!k || !c || SSL_CTX_use_certificate(srv, c) != 1 || SSL_CTX_use_PrivateKey(srv, k) != 1) { fprintf(stderr, "tls harness: no certificate\n"); abort(); }
    for (int v : {TLS1_2_VERSION, TLS1_3_VERSION}) { // warm up, so that every run begins with the same state
        SSL *a = SSL_new(cli), *s = SSL_new(srv); BIO *x, *y; BIO_new_bio_pair(&x, 65536, &y, 65536); SSL_set_bio(a, x, x); SSL_set_bio(s, y, y); SSL_set_connect_state(a); SSL_set_accept_state(s); SSL_set_max_proto_version(a, v); shake(a, s); SSL_free(a); SSL_free(s);
    }
    ERR_clear_error(); prog_ssl = 0;
}

// ---- scenario
enum { H_OK, H_GARBAGE, H_CUT, H_RESET, H_SILENT, H_VERSION, H_TAMPER };
static const char *HM[] = {"speaks TLS", "answers with garbage", "closes during the handshake", "resets during the handshake", "never answers", "has no version in common", "has its handshake altered on the way"};
struct Conn {
    int no, fd = -1; bool server; EpP ep, peer; SSL *ssl = nullptr; BIO *rb = nullptr, *wb = nullptr; int hmode = H_OK; size_t cut = 0, flight = 0, hs_wire = 0;
    std::string out; size_t wire = 0; std::vector<std::pair<size_t, size_t>> recs; // wire and plain offset at the end of each piece of data
    std::string sent, want, rcvd; size_t got = 0, tamper = ~(size_t)0, in_tamper = ~(size_t)0, in_total = 0; u64 seed;
    bool hs_done = false, prog_hs = false, notified = false, ended = false, tampered = false, dead = false, tx_unsure = false, peer_failed = false, saw_notify = false; int actions = 0, mode = 0; size_t in_log = 0, tx_seen = 0; u64 progress = 0; bool slow_reader = false, notify_due = false, plain_io = false;
};
using ConnP = std::shared_ptr<Conn>;
struct Task { bool main_ = false, ended = false; int op = -1; i64 arg[10] = {0}; u64 t0 = 0, stall0 = 0, watch0 = 0; int left = 0; ConnP c; const char *ptr = nullptr; std::string str; bool ff0 = false; };
static std::vector<std::unique_ptr<Task>> T; static std::vector<ConnP> conns; static std::deque<int> todo; static std::string big, fdata; static int filefd, never_fd; static EpP never_peer;
static size_t cap_pick(const char *t) { switch (choose(4, t)) { case 0: return 65536; case 1: return range(1, 60, t); case 2: return range(60, 3000, t); default: return 16384; } }
static NetProfile prof(bool mine) {
    NetProfile p; p.lat_min = 5 * US; p.lat_max = range(5, 3000, "lat") * US; p.seg_mode = choose(8, "seg") == 7 ? 2 : choose(2, "seg2") * 3 % 4; if (coin(300, "rndseg")) p.seg_mode = 1;
    if (!mine) { if (coin(300, "shorts")) p.short_permille = (unsigned)range(50, 900, "short_pm"); if (coin(200, "eagains")) p.eagain_permille = (unsigned)range(20, 300, "eagain_pm"); }
    return p;
}
static std::string pattern(u64 seed, size_t off, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) { u64 x = (off + i) * 0x9E3779B97F4A7C15ull + seed * 7919; s[i] = (char)(x >> 37); } return s; }
static size_t size_pick(const char *t) { switch (choose(6, t)) { case 0: return range(1, 16, t); case 1: return range(1, 600, t); case 2: return 16384 - choose(3, t) + choose(3, t); case 3: return range(1, 8192, t); case 4: return range(1, 50000, t); default: return 1; } }
static const char *who(Conn &c) { static char b[160]; snprintf(b, sizeof b, "connection %d (the program is the %s; its peer %s)", c.no, c.server ? "server" : "client", HM[c.hmode]); return b; }

// ---- the other side
static void flush(ConnP c) {
    if (c->ended) return;
    std::string got; on_peer([&] { char b[4096]; int n; while ((n = BIO_read(c->wb, b, sizeof b)) > 0) got.append(b, n); });
    if (!got.empty()) {
        for (size_t i = 0; i < got.size(); i++) if (c->wire + i == c->tamper) { got[i] ^= (char)(1 << (c->tamper % 8)); c->tampered = true; fault("byte_altered_to_program"); ev("byte %zu to the program on connection %d is altered", c->tamper, c->no); }
        c->out += got; c->wire += got.size();
    }
    if (!c->flight && c->wire) c->flight = c->wire;
    if ((c->hmode == H_CUT || c->hmode == H_RESET) && c->wire > c->cut) { size_t drop = c->wire - c->cut; c->out.resize(c->out.size() > drop ? c->out.size() - drop : 0); }
    if (!c->out.empty()) { size_t k = c->peer->send(c->out); c->out.erase(0, k); }
    if ((c->hmode == H_CUT || c->hmode == H_RESET) && c->wire > c->cut && c->out.empty()) { c->ended = true; if (c->hmode == H_CUT) { fault("peer_close_in_handshake"); ev("peer %d closes during the handshake", c->no); c->peer->take(); c->peer->close_(); } else { fault("peer_reset_in_handshake"); ev("peer %d resets during the handshake", c->no); c->peer->reset(); } }
}
static void pump(ConnP c, size_t max = ~(size_t)0) {
    if (c->ended || c->peer->closed || c->peer->was_rst) return;
    std::string in = c->peer->take(max); if (c->hmode == H_GARBAGE || c->hmode == H_SILENT) return;
    if (c->in_tamper >= c->in_total && c->in_tamper < c->in_total + in.size()) { in[c->in_tamper - c->in_total] ^= 4; c->tampered = true; fault("byte_altered_from_program"); ev("byte %zu from the program on connection %d is altered", c->in_tamper, c->no); }
    c->in_total += in.size(); std::string plain; bool notify = false, failed = false, hs = c->hs_done;
    on_peer([&] {
        if (!in.empty()) BIO_write(c->rb, in.data(), (int)in.size());
        if (!hs) { int r = SSL_do_handshake(c->ssl); if (r == 1) hs = true; else if (!SSL_want_read(c->ssl) && !SSL_want_write(c->ssl)) failed = true; else if (r == 0) failed = true; }
        if (hs) for (;;) { char b[20000]; int n = SSL_read(c->ssl, b, sizeof b); if (n > 0) { plain.append(b, n); continue; } if (SSL_get_shutdown(c->ssl) & SSL_RECEIVED_SHUTDOWN) notify = true; else if (!SSL_want_read(c->ssl) && !SSL_want_write(c->ssl)) failed = true; break; }
        ERR_clear_error();
    });
    if (hs && !c->hs_done) { c->hs_done = true; c->hs_wire = c->wire; ev("peer %d: handshake done", c->no); }
    if (!plain.empty()) {
        size_t o = c->rcvd.size(); c->rcvd += plain; ev("peer %d has %zu bytes", c->no, c->rcvd.size());
        if (c->rcvd.size() > c->want.size()) BAD("sent-wrong", "%s: the peer decrypted %zu bytes although the program only sent %zu", who(*c), c->rcvd.size(), c->want.size());
        if (memcmp(c->rcvd.data() + o, c->want.data() + o, plain.size())) { size_t i = o; while (c->rcvd[i] == c->want[i]) i++; BAD("sent-wrong", "%s: byte %zu that the peer received differs from what the program sent", who(*c), i); }
    }
    if (notify && !c->saw_notify) { c->saw_notify = true; ev("peer %d: the program ended the session", c->no); }
    if (failed && !c->peer_failed) { c->peer_failed = true; ev("peer %d gives the session up", c->no); flush(c); if (!c->ended) { c->ended = true; c->peer->take(); c->peer->close_(); } return; }
    flush(c);
}
static void peer_send(ConnP c, size_t n) {
    if (c->notified || !c->hs_done || c->out.size() > 100000) return; std::string d = pattern(c->seed, c->sent.size(), n); int r = 0; on_peer([&] { r = SSL_write(c->ssl, d.data(), (int)d.size()); ERR_clear_error(); });
    if (r <= 0) return; flush(c); c->sent += d.substr(0, r); c->recs.push_back({c->wire, c->sent.size()}); ev("peer %d sends %d bytes", c->no, r);
}
static void peer_end(ConnP c, int how) {
    if (c->ended) return;
    if (how == 0) { fault("peer_reset"); ev("peer %d resets", c->no); c->ended = true; c->peer->reset(); return; }
    if (how == 1) { fault("peer_close_without_notify"); ev("peer %d closes without ending the session", c->no); c->ended = true; if (!c->out.empty()) c->notified = false; c->peer->take(); c->peer->close_(); return; }
    if (!c->hs_done) return;
    if (!c->notified) { c->notified = true; on_peer([&] { SSL_shutdown(c->ssl); ERR_clear_error(); }); count("peer_ends_session"); ev("peer %d ends the session", c->no); flush(c); }
    if (how == 2 && c->out.empty()) { ev("peer %d closes", c->no); c->ended = true; c->peer->take(); c->peer->close_(); }
}
static void peer_step(ConnP c) {
    if (c->ended || c->peer->closed || c->peer->was_rst) return;
    switch (choose(9, "peer")) {
    case 0: case 1: case 2: peer_send(c, size_pick("peer_n")); break;
    case 3: pump(c, 1 + choose(5000, "peer_take")); break;
    case 4: pump(c); break;
    case 5: if (coin(300, "peer_end")) { peer_end(c, (int)choose(4, "peer_endk")); if (c->ended) return; } break;
    case 6: if (coin(30, "hole")) { fault("blackhole"); ev("nothing reaches peer %d any more", c->no); c->peer->blackhole = true; c->dead = true; } break;
    case 7: if (c->hs_done && !c->notified && coin(250, "keyupdate")) { bool ok = false; on_peer([&] { if (SSL_version(c->ssl) == TLS1_3_VERSION) { ok = SSL_key_update(c->ssl, SSL_KEY_UPDATE_REQUESTED) == 1 && SSL_do_handshake(c->ssl) == 1; } ERR_clear_error(); }); if (ok) { count("key_updates"); ev("peer %d updates its key", c->no); flush(c); } }
            else if (c->hs_done && coin(60, "tamper")) { size_t o = c->wire + choose(300, "tamper_at"); if (coin(500, "which")) c->tamper = o; else c->in_tamper = c->in_total + choose(300, "tamper_at"); } break;
    default: break;
    }
    if (c->actions-- > 0) after(range(1, coin(200, "peer_slow") ? 200000 : 5000, "peer_wait") * US, [c] { peer_step(c); });
    else if (c->mode == 0) { c->slow_reader = false; pump(c); }
    else if (c->mode == 1) after(range(1, 50, "late_close") * MS, [c] { c->slow_reader = false; pump(c); peer_end(c, 2); });
    else { c->slow_reader = false; pump(c); peer_end(c, 3); }
}
static void peer_event(ConnP c) { if (c->ended || c->peer->closed) return; if (c->hmode == H_GARBAGE && c->wire == 0 && !c->peer->rx.empty()) { c->peer->take(); c->wire = 1; std::string g = pattern(77 + c->no, 0, range(1, 300, "garbage")); if (coin(300, "recordlike")) { g[0] = 22; g[1] = 3; g[2] = 3; if (g.size() > 4) g[3] = 0; } fault("garbage"); c->peer->send(g); after(range(1, 3000, "garbage_end") * US, [c] { if (!c->ended) { c->ended = true; c->peer->take(); c->peer->close_(); } }); return; }
    if (!c->hs_done || !c->slow_reader) pump(c); else flush(c); }
static int open_conn(Task &t) {
    ConnP c = std::make_shared<Conn>(); c->no = (int)conns.size() + 1; c->seed = c->no * 17; c->server = coin(350, "server"); conns.push_back(c); t.c = c;
    NetProfile mine = prof(false); c->plain_io = !mine.short_permille && !mine.eagain_permille; c->fd = sut_socketpair_fd(&c->peer, cap_pick("cap_to"), cap_pick("cap_from"), mine, prof(true)); c->ep = c->peer->peer.lock(); c->ep->log_tx = true; if (c->fd < 0) return -1;
    c->hmode = choose(3, "hs_ok") ? H_OK : (int)choose(7, "hs_mode"); c->actions = (int)range(0, 16, "peer_actions"); c->mode = (int)choose(3, "peer_mode"); c->slow_reader = coin(400, "slow_reader"); t.left = (int)range(1, 16, "conn_ops");
    bool v12 = coin(350, "tls12"); int frag = coin(300, "frag") ? (int)range(512, 16384, "frag_n") : 0, tickets = (int)choose(4, "tickets");
    on_peer([&] {
        c->ssl = SSL_new(c->server ? cli : srv); c->rb = BIO_new(BIO_s_mem()); c->wb = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(c->rb, -1); BIO_set_mem_eof_return(c->wb, -1); SSL_set_bio(c->ssl, c->rb, c->wb);
        if (c->server) SSL_set_connect_state(c->ssl); else { SSL_set_accept_state(c->ssl); SSL_set_num_tickets(c->ssl, tickets); }
        if (v12) SSL_set_max_proto_version(c->ssl, TLS1_2_VERSION); if (frag) SSL_set_max_send_fragment(c->ssl, frag);
        if (c->hmode == H_VERSION) { SSL_set_min_proto_version(c->ssl, TLS1_2_VERSION); SSL_set_max_proto_version(c->ssl, TLS1_2_VERSION); SSL_set_cipher_list(c->ssl, "ECDHE-RSA-AES128-GCM-SHA256"); }
    });
    if (c->hmode == H_CUT || c->hmode == H_RESET) c->cut = choose(c->server ? 200 : 700, "cut"); if (c->hmode == H_TAMPER) { if (coin(500, "dir")) c->tamper = choose(c->server ? 300 : 900, "tamper_at"); else c->in_tamper = choose(300, "tamper_at"); }
    c->peer->on_event = [c] { peer_event(c); }; if (c->server) after(range(1, 500, "begin") * US, [c] { if (c->hmode != H_SILENT && c->hmode != H_GARBAGE) pump(c); else if (c->hmode == H_GARBAGE) { c->wire = 1; fault("garbage"); c->peer->send(pattern(5, 0, range(1, 200, "garbage"))); } });
    after(range(1, 5000, "peer_first") * US, [c] { peer_step(c); }); ev("connection %d begins: %s", c->no, who(*c)); return c->fd;
}

// ---- oracle
static size_t wire_seen(Conn &c) { return c.ep->recv_total; } // bytes the program took
static size_t avail(Conn &c) { size_t w = wire_seen(c) + c.ep->rx.size(), p = 0; for (auto &r : c.recs) if (r.first <= w && r.first <= c.tamper) p = r.second; return p; }
static u64 slack(const Task &t) { return 2 * MS + (stall_total() - t.stall0); }
static bool broken(Conn &c) { return c.dead || c.tampered || c.peer_failed || c.ep->was_rst || c.ep->so_err || (c.ended && !c.notified) || c.hmode != H_OK; }
static void check_fds(const char *when) {
    for (auto &f : list_fds()) { if (f.fd == never_fd || f.fd == filefd) continue; bool ok = false; for (auto &t : T) if (t->c && !t->ended && f.ep == t->c->ep && f.fd == t->c->fd && t->op != 112) ok = true; if (!ok) BAD("leak", "%s: descriptor %d (%s) is still open although its connection failed or was dropped", when, f.fd, f.ep ? f.ep->name.c_str() : f.kind); }
}
static void blocking(u64 deadline) {
    for (auto &tp : T) {
        Task &t = *tp; if (t.ended || t.op <= 0 || !t.c) continue; Conn &c = *t.c; auto later = [&](u64 b) { return deadline > b && deadline > now_ns() + MS; };
        if (t.op == 12 && fd_readable(c.fd) && fd_writable(c.fd)) BAD("missed", "%s: the handshake could continue, but the program goes to sleep", who(c));
        size_t io = c.ep->recv_total + c.ep->tx_log.size(); if (io != c.tx_seen) { c.tx_seen = io; c.progress = now_ns(); }
        if (t.op == 1) {
            if (fd_readable(c.fd) && fd_writable(c.fd)) BAD("missed", "%s has data, an end or an error for the task that receives, but the program goes to sleep", who(c));
            if (avail(c) > c.got && !broken(c) && t.arg[0] > 0 && fd_writable(c.fd)) BAD("missed", "%s: %zu bytes have arrived for the task that receives, but the program goes to sleep", who(c), avail(c) - c.got);
        }
        if (t.op == 2 || t.op == 3) if (fd_readable(c.fd) && fd_writable(c.fd)) BAD("missed", "%s could take more data from the task that sends, but the program goes to sleep", who(c));
        if (t.op <= 3 && t.arg[1] > 0 && later(std::max(t.t0, c.progress) + t.arg[1] * MS + slack(t))) BAD("late", "%s: an operation with a timeout of %lld ms started at %.3f ms, its last progress was at %.3f ms; the program (now %.3f ms) sleeps until %.3f ms", who(c), (long long)t.arg[1], t.t0 / 1e6, c.progress / 1e6, now_ns() / 1e6, deadline == ~0ull ? -1. : deadline / 1e6);
    }
    check_fds("while the program waits");
    int live = 0; for (auto &t : T) if (t->c && !t->ended) live++; if (prog_ssl > live) BAD("session-leak", "%d sessions exist for %d connections: one that failed or was dropped was not released", prog_ssl, live);
}
static void blocked_check() { if (longest_block_ns() > 0) BAD("blocks", "an operation on a TLS socket kept the whole program from running for %.3f ms", longest_block_ns() / 1e6); }
static void setup() {
    in_run = true; rnd_state = 0x9E3779B97F4A7C15ull * (choose(1000, "rnd") + 1); max_calls = 2000000; on_block = blocking; livelock_class = "C18:livelock";
    if (coin(200, "stalls")) { sysf.stall_permille = (unsigned)range(1, 20, "stall_pm"); sysf.stall_max = range(1, 30, "stall_max") * MS; }
    if (coin(80, "watchfail")) sysf.epoll_ctl_fail_permille = (unsigned)range(5, 100, "watch_pm");
    if (coin(200, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 300, "eintr_pm");
    big = pattern(4711, 0, 120000); fdata = pattern(815, 0, choose(5, "filekind") == 0 ? range(0, 10, "filesize") : range(1, 60000, "filesize"));
    vfs["/data"] = std::make_shared<Inode>(); vfs["/data"]->dir = true; auto f = std::make_shared<Inode>(); f->data = fdata; vfs["/data/f"] = f; filefd = fd_of_path("/data/f", O_RDONLY);
    if (coin(60, "fileerr")) { file_faults.fail_after = (int)choose(6, "fail_after"); file_faults.fail_errno = coin(500, "which") ? EIO : ENOMEM; }
    never_fd = sut_pipe_read_fd(&never_peer, 16); watch_always = never_fd; T.emplace_back(new Task); T[0]->main_ = true;
    int n = (int)range(1, 6, "conns"); for (int i = 0; i < n; i++) { T.emplace_back(new Task); todo.push_back((int)T.size() - 1); }
}
static void idle() {
    for (auto &tp : T) { if (!tp->c) continue; Conn &c = *tp->c; if (!broken(c) && !c.tx_unsure && !c.ended && !c.notified && !c.peer->was_rst && c.rcvd.size() != c.want.size() && tp->op != 2 && tp->op != 3) BAD("lost", "%s: the program sent %zu bytes successfully, but the peer received only %zu", who(c), c.want.size(), c.rcvd.size()); if (c.notify_due && !broken(c) && !c.ended && !c.peer->was_rst && c.hs_done && !c.saw_notify) BAD("no-end", "%s: the program closed or dropped the connection, but its peer never learned that the session ended", who(c)); if (tp->op == 12 && !broken(c)) BAD("stuck", "%s: the handshake never ends", who(c)); }
    count("runs_completed"); finish();
}
static void exited(int) { BAD("exit", "the program ended although its main task waits for ever"); }
Harness sim::harness = {"tls", setup, idle, exited};
static i64 tmo() { return choose(3, "tmo") ? (i64)range(1, 60, "tmo_ms") : 0; }
static void mark() { u64 h = 1; for (auto &t : T) h = mix(h, t->ended ? 99 : t->op + 2); for (auto &c : conns) h = mix(h, (c->hs_done ? 1 : 0) + (c->ended ? 2 : 0) + (c->notified ? 4 : 0) + (c->ep->rx.empty() ? 8 : 0) + (c->ep->writable() ? 16 : 0) + (c->tampered ? 32 : 0)); state_mark(h); }

extern "C" {
void *hx_ctx() { return srv; }
int hx_next(int id) {
    Task &t = *T[id]; mark(); blocked_check(); if (t.ended || t.op > 0) BAD("task", "task %d continues although it ended or its operation has not returned", id);
    advance_to(now_ns() + choose(3, "compute") * 7 * US); t.t0 = now_ns(); t.stall0 = stall_total(); t.watch0 = watch_faults; t.ff0 = file_faults.fail_after >= 0; auto go = [&](int op) { t.op = op; return op; };
    if (t.main_) { if (todo.empty()) { t.arg[9] = never_fd; t.ended = true; return 0; } if (coin(200, "mainsleep")) { t.arg[0] = (i64)range(1, 20, "ms"); return go(4); } Task &n = *T[t.arg[0] = todo.front()]; todo.pop_front(); t.arg[1] = open_conn(n); t.arg[2] = n.c->server; n.op = 12; n.t0 = now_ns(); n.watch0 = watch_faults; return go(21); }
    Conn &c = *t.c; auto ending = [&] { c.notify_due = c.prog_hs && c.plain_io && !broken(c) && !c.tx_unsure && c.ep->tx_space() > 100; }; if (t.left-- <= 0) { ending(); t.op = 0; return 0; }
    unsigned k = (unsigned)choose(12, "conn_op"); bool tx_dead = c.tx_unsure;
    if (k <= 4) { t.arg[0] = (i64)std::min<size_t>(20000, size_pick("recv_n")); t.arg[1] = tmo(); return go(1); }
    if (k <= 7 && !tx_dead) { size_t cap = 60 * c.peer->rcvcap; t.arg[0] = (i64)std::min(size_pick("send_n"), cap); size_t off = coin(300, "same") ? 0 : choose(big.size() - t.arg[0], "send_off"); t.ptr = big.data() + off; t.arg[1] = tmo(); t.str.assign(t.ptr, t.arg[0]); c.want += t.str; return go(2); }
    if (k == 8 && !tx_dead) { size_t off = choose(fdata.size() + 1, "fo"), n = fdata.size() > off ? std::min<size_t>(range(1, fdata.size() - off, "fn"), 60 * c.peer->rcvcap) : 1; if (coin(100, "beyond")) n += 1 + choose(9000, "by"); if (coin(300, "aligned")) { off &= ~(size_t)4095; } t.arg[0] = (i64)n; t.arg[1] = tmo(); t.arg[2] = filefd; t.arg[3] = (i64)off; t.str = off < fdata.size() ? fdata.substr(off, n) : ""; c.want += t.str; return go(3); }
    if (k == 9) { t.arg[0] = (i64)range(1, 40, "ms"); return go(4); }
    if (k == 11 && coin(150, "close")) { ending(); t.left = 0; return go(6); }
    return go(5);
}
i64 hx_arg(int id, int k) { return T[id]->arg[k]; }
const void *hx_ptr(int id) { return T[id]->ptr; }
void hx_data(int id, const void *d, i64 n) {
    Task &t = *T[id]; Conn &c = *t.c; if (n > t.arg[0] || n < 0) BAD("overrun", "a receive of at most %lld bytes reports %lld", (long long)t.arg[0], (long long)n);
    if (c.got + n > c.sent.size()) BAD("invented", "%s: the program received %zu bytes although only %zu were sent", who(c), c.got + n, c.sent.size());
    if (memcmp(d, c.sent.data() + c.got, n)) { size_t i = 0; while (((const char *)d)[i] == c.sent[c.got + i]) i++; BAD("altered", "%s: byte %zu received differs from what was sent", who(c), c.got + i); }
    c.got += n; size_t good = 0; for (auto &r : c.recs) if (r.first <= c.tamper || c.tamper < c.hs_wire) good = r.second; // what the handshake's records say of their own version is not protected if (c.got > good) BAD("tampered", "%s: the program received data whose record was altered on the way", who(c));
}
void hx_ret(int id, int op, int ok, i64 rc, int err) {
    Task &t = *T[id]; blocked_check(); u64 el = now_ns() - t.t0; if (t.main_) { t.op = -1; return; }
    ev("task %d: op %d -> %s %lld (errno %d)", id, op, ok ? "ok" : "failed", (long long)rc, ok ? 0 : err); Conn &c = *t.c;
    if (op == 0) { t.ended = true; t.op = 0; check_fds("after a connection was dropped"); return; }
    if (t.op != op) BAD("task", "task %d reports operation %d but was doing %d", id, op, t.op);
    bool timed = op <= 3 && t.arg[1] > 0 && el + MS >= (u64)t.arg[1] * MS; t.op = -1;
    if (op == 12) {
        c.prog_hs = ok;
        if (ok) { count("handshakes"); bool cut = (c.hmode == H_CUT || c.hmode == H_RESET) && c.cut < c.flight; if (c.hmode == H_GARBAGE || c.hmode == H_SILENT || c.hmode == H_VERSION || (cut && !c.server)) BAD("false-handshake", "%s: the handshake reports success", who(c)); }
        else { count("handshake_failures"); if (!broken(c) && !c.ended && watch_faults == t.watch0) BAD("spurious", "%s: the handshake failed although nothing is wrong with the connection", who(c)); t.op = 112; check_fds("after a failed handshake"); t.op = -1; }
        return;
    }
    bool was_dead = c.dead;
    if (op == 1) {
        if (ok) { if (rc == 0 && t.arg[0] > 0) { if (!c.notified || c.got != c.sent.size()) BAD("false-end", "%s: a receive reports the end after %zu of %zu bytes, although the peer %s", who(c), c.got, c.sent.size(), c.notified ? "sent more before it ended the session" : "did not end the session"); count("ends"); } else count("receives"); return; }
        if (timed) count("recv_timeouts"); else if (watch_faults != t.watch0) count("recv_unwatched");
        else if (!broken(c) && !c.tx_unsure) BAD("spurious", "%s: a receive failed after %.3f ms of %lld (errno %d) although the connection is sound", who(c), el / 1e6, (long long)t.arg[1], err);
        else { count("recv_failed"); if (!was_dead && !c.tampered && !c.ep->was_rst && !c.tx_unsure && c.hmode == H_OK && !c.peer_failed && avail(c) > c.got) BAD("lost", "%s: a receive failed although %zu more bytes had arrived before", who(c), avail(c) - c.got); if (!timed) c.dead = true; }
        return;
    }
    if (op == 2 || op == 3) {
        if (ok) { if (rc != t.arg[0]) BAD("sent-short", "%s: a send of %lld bytes reports success for %lld", who(c), (long long)t.arg[0], (long long)rc); if (op == 3 && t.str.size() < (size_t)t.arg[0]) BAD("sent-short", "%s: sending %lld bytes of a file that has only %zu there reports success", who(c), (long long)t.arg[0], t.str.size()); count(op == 3 ? "sent_files" : "sends"); return; }
        bool ferr = op == 3 && (t.str.size() < (size_t)t.arg[0] || (t.ff0 && file_faults.fail_after < 0));
        if (timed) count("send_timeouts"); else if (watch_faults != t.watch0) count("send_unwatched"); else if (ferr) count("sendfile_errors"); else if (broken(c) || c.tx_unsure || c.ended || c.notified) { count("send_failed"); c.dead = true; }
        else BAD("spurious", "%s: a send of %lld bytes failed after %.3f ms of %lld (errno %d) although the connection is sound", who(c), (long long)t.arg[0], el / 1e6, (long long)t.arg[1], err);
        c.tx_unsure = true; return;
    }
    if (op == 6) { for (auto &f : list_fds()) if (f.ep == c.ep) BAD("leak", "%s: closing the socket left its descriptor open", who(c)); c.dead = true; }
}
}
