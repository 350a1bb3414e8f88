// Files, pipes, temporary files (C11) and output streams and logs (C13): byte-exact models of every operation.
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <csignal>
#include <ctime>
#include <algorithm>
using namespace sim;
extern "C" { typedef void (*sighandler)(int); sighandler sim_signal(int, sighandler); }
static std::string P; static bool C13;
#define BAD(cls, ...) violate((P + ":" + cls).c_str(), __VA_ARGS__)

enum { READALL = 1, READ_STR, READ_BUF, RD_ALL, RD_ALL_INTO, PIPE_READ, PIPE_ALL, WRITE_FILE, PIPE_WRITE, COPY_PATH, COPY_FD, TEMP, SIZE, SLEEP, STD, LOG, COLLECT, BSOCK, SEEK, SOCK, LOOP };
static const char *NAME[] = {"", "os.readAll", "readAsync", "readAsync(buffer)", "readAll", "readAll(stream)", "pipe readAsync", "pipe readAll", "writeAsync", "pipe writeAsync", "copy to path", "copy to descriptor", "temporary file", "size", "sleep", "standard stream", "log", "buffered stream", "buffered socket stream", "seek and read", "socket stream", "read loop"};
struct Piece { int op = 0; i64 a2 = 0, a3 = 0, a4 = 0; std::string s, data; };
struct Op {
    int no = 0, task = 0, op = 0; i64 a[5] = {0}; std::string s[4], ptr, pre; std::string data, want, got, out, err; size_t errs = 0, err0 = 0; int fd = -1, fd2 = -1; EpP ep, srv; std::string peer_in, dst; std::vector<std::string> shrinks; size_t shrink_left = 0; bool ended = false, missing = false, too_big = false, silent = false, gone = false, dst_missing = false; int nulls = 0; i64 result = -1; u64 t0 = 0, last_move = 0; u64 timeout = 0; std::vector<Piece> pieces; size_t pc = 0; size_t cap = 0; bool failed = false; std::string tmp, tmp2; bool kept = false; InodeP tmpi, tmp2i; bool ctx = false; size_t logged = 0; u64 w0 = 0; i64 seekpos = -1; bool pend = false; int eof = 0; std::string before;
};
static std::vector<std::unique_ptr<Op>> ops; struct Task { int left = 0; Op *cur = nullptr; bool done = false; }; static std::vector<Task> T; static int ntasks; static int level = 0; static bool precise; static int phase = 0; static i64 base_bytes = -1; static Op *current; static bool warm = false; static size_t idle_n = 0; static int never_fd; static EpP never_peer; static int armed_kind = 0;
static std::string rnd(size_t n, const char *t) { std::string s(n, 0); u64 x = 0x9E3779B97F4A7C15ull * (1 + choose(100000, t)); for (auto &c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)x; } return s; }
static std::string word(size_t n, const char *t) { std::string s = rnd(n, t); for (auto &c : s) c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_ %"[(unsigned char)c % 66]; return s; }
static size_t size_pick(const char *t) { switch (choose(8, t)) { case 0: return 0; case 1: return range(1, 30, t); case 2: return range(1, 3000, t); case 3: return 4090 + choose(6, t); case 4: return 8182 + choose(12, t); case 5: return range(1, 40000, t); case 6: return range(1, 200000, t); default: return 1; } }
static NetProfile prof(bool mine) {
    NetProfile p; p.lat_min = 5 * US; p.lat_max = range(5, 300, "lat") * US; p.seg_mode = choose(3, "seg");
    if (!mine) { if (coin(400, "shorts")) p.short_permille = (unsigned)range(50, 900, "short_pm"); if (coin(300, "eagains")) p.eagain_permille = (unsigned)range(20, 300, "eagain_pm"); }
    return p;
}
static size_t cap_pick(const char *t) { switch (choose(4, t)) { case 0: return 65536; case 1: return range(20, 200, t); case 2: return range(1, 3000, t); default: return 16384; } }
static void put(const std::string &p, const std::string &d) { auto i = std::make_shared<Inode>(); i->data = d; vfs[p] = i; }
static const std::string *content(const std::string &p) { auto it = vfs.find(p); return it == vfs.end() ? nullptr : &it->second->data; }
static std::string path(Op *o, const char *k) { return "/d/" + std::to_string(o->no) + "-" + k; }
static std::string who(const Op *o) { return "operation " + std::to_string(o->no) + " (" + NAME[o->op] + ", task " + std::to_string(o->task) + ")"; }
#define WHO(o) who(o).c_str()

// the other side of a pipe or socket the program reads from
static void feed(Op *o, size_t at) {
    if (o->ep->closed || o->gone) return;
    if (at >= o->data.size()) { if (o->eof == 0) { ev("the writer of op %d closes", o->no); o->ep->close_(); o->gone = true; } return; }
    size_t n = std::min(o->data.size() - at, 1 + choose(choose(3, "feedmode") == 0 ? 40 : 9000, "feed_n")); size_t k = o->ep->send(o->data.substr(at, n)); if (k) o->last_move = now_ns(); o->want.append(o->data, at, k);
    u64 gap = range(1, coin(100, "feedslow") ? 20000 : 800, "feed_gap") * US;
    if (o->timeout) { u64 t = o->timeout * MS; if (coin(60, "silence")) { gap = 2 * t + range(5, 400, "silent_ms") * MS; o->silent = true; fault("silent_writer"); } else gap = std::min(gap, t / 2 ? t / 2 : 1); }
    after(gap, [o, at, k] { feed(o, at + k); });
}
// the other side of a pipe or socket the program writes to
static void drain(Op *o) {
    if (o->ep->closed || o->gone) return;
    if (coin(10, "leave_full") && !o->ended) { o->gone = true; fault("reader_closes"); ev("the reader of op %d closes without reading on", o->no); if (o->ep->pipe || coin(500, "how")) o->ep->close_(); else o->ep->reset(); return; }
    u64 gap = range(1, coin(100, "drainslow") ? 20000 : 600, "drain_gap") * US; std::string d = o->ep->take(coin(300, "drainall") ? (size_t)-1 : 1 + choose(6000, "drain_n")); o->peer_in += d;
    if (o->ep->rx_eof && o->ep->rx.empty()) { o->pend = true; return; }
    if (o->ended && o->ep->was_rst) return;
    if (o->timeout) { u64 t = o->timeout * MS; if (coin(40, "stop") && !o->ended) { gap = 2 * t + range(5, 400, "silent_ms") * MS; o->silent = true; fault("silent_reader"); } else gap = std::min(gap, t / 2 ? t / 2 : 1); }
    if (coin(12, "leave") && !o->ended) { o->gone = true; fault("reader_closes"); ev("the reader of op %d closes", o->no); if (o->ep->pipe || coin(500, "how")) o->ep->close_(); else o->ep->reset(); return; }
    after(gap, [o] { drain(o); });
}
static std::string std_text(const char *t) { size_t n = choose(6, t) == 0 ? range(1, 3000, t) : range(0, 40, t); return word(n, t); }
static void script(Op *o, bool sock, bool buffered) {
    int n = (int)range(1, 14, "npieces");
    for (int i = 0; i < n; i++) {
        Piece p; switch (choose(6, "piece")) { case 0: case 1: p.op = 1; break; case 2: p.op = buffered ? 2 : 1; break; case 3: p.op = 3; break; case 4: p.op = sock && coin(500, "sf") ? 5 : buffered && !sock ? 5 : 1; break; default: p.op = 4; }
        if (p.op == 1 || (p.op == 5 && !sock)) { size_t z = choose(5, "pz") == 0 ? (size_t)o->cap - 3 + choose(7, "pzc") : choose(4, "pzb") == 0 ? range(1, 5000, "pzl") : range(0, 300, "pzs"); if (z > 60000) z = 0; p.data = rnd(z, "pdata"); p.a2 = z; }
        if (p.op == 3) { p.a2 = (i64)entropy() >> choose(60, "num"); p.s = word(range(0, 20, "pw"), "pws"); char b[64]; snprintf(b, 64, "%lld ", (long long)p.a2); p.data = b + p.s; }
        if (p.op == 4) p.a2 = range(0, 3, "pause");
        if (p.op == 5 && sock) { std::string f = rnd(size_pick("sfsize"), "sfdata"); std::string name = path(o, ("sf" + std::to_string(i)).c_str()); put(name, f); p.a3 = fd_of_path(name, O_RDONLY); p.a4 = choose(f.size() + 1, "sfoff"); p.a2 = choose(f.size() - p.a4 + 1, "sfcount"); p.data = f.substr(p.a4, p.a2); p.s = name; }
        o->pieces.push_back(p);
    }
}
static Op *new_op(int task) {
    ops.emplace_back(new Op); Op *o = ops.back().get(); o->no = (int)ops.size() - 1; o->task = task; o->t0 = o->last_move = now_ns(); o->err0 = file_errors.size();
    static const int c11[] = {READALL, READ_STR, READ_BUF, RD_ALL, RD_ALL_INTO, PIPE_READ, PIPE_ALL, WRITE_FILE, PIPE_WRITE, COPY_PATH, COPY_FD, TEMP, SIZE, SLEEP, SEEK, LOOP}, c13[] = {STD, STD, LOG, LOG, COLLECT, COLLECT, BSOCK, BSOCK, SOCK, SLEEP};
    o->op = C13 ? c13[choose(10, "op")] : c11[choose(16, "op")]; if (warm) o->op = C13 ? c13[idle_n++ % 10] : c11[idle_n++ % 16];
    auto src = [&](const char *k, size_t max) { size_t n = size_pick("fsize"); if (n > max) n = max; if (!warm && coin(40, "missing")) { o->missing = true; return path(o, k); } if (coin(15, "huge") && max > 300000) { n = 1048570 + choose(12, "hugen"); if (n > 1048576) o->too_big = true; } o->data = rnd(n, "fdata"); put(path(o, k), o->data); if (!warm && coin(50, "shrinks")) { o->shrinks.push_back(path(o, k)); o->shrink_left = choose(3, "shrink_after"); } return path(o, k); };
    switch (o->op) {
    case READALL: o->s[0] = src("in", 400000); o->a[0] = choose(2, "nb"); if (o->a[0]) o->too_big = false; break;
    case READ_STR: o->s[0] = src("in", 400000); o->too_big = false; o->a[0] = choose(2, "nb"); break;
    case READ_BUF: o->s[0] = src("in", 19999); o->a[0] = choose(2, "nb"); break;
    case RD_ALL: o->s[0] = src("in", 400000); o->a[0] = choose(2, "nb"); break;
    case RD_ALL_INTO: o->s[0] = src("in", 400000); o->too_big = false; o->a[0] = choose(2, "nb"); break;
    case SEEK: { o->s[0] = src("in", 400000); o->too_big = false; o->shrinks.clear(); o->a[0] = choose(2, "nb"); o->seekpos = o->a[1] = (i64)choose(o->data.size() + 10, "seek"); break; }
    case LOOP: o->s[0] = src("in", 60000); o->a[0] = choose(2, "nb"); o->a[1] = range(1, 3000, "bufsz"); if (o->a[1] < 40) o->a[1] = 40; break;
    case SIZE: o->s[0] = src("in", 400000); o->too_big = false; o->shrinks.clear(); o->a[0] = choose(2, "nb"); break;
    case PIPE_READ: { o->data = rnd(size_pick("psize"), "pdata"); o->fd = (int)(o->a[0] = sut_pipe_read_fd(&o->ep, cap_pick("pcap"))); o->srv = endpoint_of(o->fd); o->srv->prof = prof(false); o->ep->prof = prof(true); if (precise && coin(500, "timed")) o->timeout = range(5, 1500, "timeout"); o->a[1] = o->timeout; if (o->timeout && coin(80, "noeof")) { o->eof = 1; o->silent = true; fault("silent_writer"); } after(range(1, 200, "feed0") * US, [o] { feed(o, 0); }); break; }
    case PIPE_ALL: { size_t n = size_pick("psize"); o->data = rnd(std::min<size_t>(n, 60000), "pdata"); o->fd = (int)(o->a[0] = sut_pipe_read_fd(&o->ep, 65536)); o->srv = endpoint_of(o->fd); o->srv->prof = prof(false); o->srv->prof.eagain_permille = 0; o->ep->prof = NetProfile(); o->ep->prof.lat_min = o->ep->prof.lat_max = 0; o->ep->send(o->data); o->want = o->data; o->ep->close_(); break; }
    case WRITE_FILE: {
        o->ptr = rnd(size_pick("wsize"), "wdata"); o->a[0] = o->ptr.size(); o->a[1] = choose(2, "nb"); o->s[0] = path(o, "out"); if (coin(400, "exists")) { o->before = rnd(choose(300, "oldn"), "old"); put(o->s[0], o->before); }
        int m = (int)choose(3, "wflags"); o->a[2] = m == 0 ? 0 : m == 1 ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT; o->want = m == 0 ? o->before + o->ptr : m == 1 ? o->ptr : o->ptr + (o->before.size() > o->ptr.size() ? o->before.substr(o->ptr.size()) : ""); break; }
    case PIPE_WRITE: { o->ptr = rnd(size_pick("wsize"), "wdata"); o->fd = (int)(o->a[0] = sut_pipe_write_fd(&o->ep, cap_pick("pcap"))); o->srv = endpoint_of(o->fd); o->srv->prof = prof(false); o->a[1] = o->ptr.size(); if (precise && coin(500, "timed")) o->timeout = range(5, 1500, "timeout"); o->a[2] = o->timeout; after(range(1, 200, "drain0") * US, [o] { drain(o); }); break; }
    case COPY_PATH: o->s[0] = src("src", 400000); o->too_big = false; o->s[1] = o->dst = path(o, "dst"); if (coin(400, "exists")) put(o->dst, rnd(size_pick("old"), "old")); break;
    case COPY_FD: {
        o->s[0] = src("src", 400000); o->too_big = false; int k = (int)choose(3, "dstkind");
        if (k == 0) { o->dst = path(o, "dst"); o->fd = fd_of_path(o->dst, O_WRONLY | O_CREAT); }
        else { if (k == 1) o->fd = sut_pipe_write_fd(&o->ep, cap_pick("pcap")); else o->fd = sut_socketpair_fd(&o->ep, 65536, cap_pick("scap"), prof(false), prof(true)); o->srv = endpoint_of(o->fd); o->srv->prof = prof(false); after(range(1, 200, "drain0") * US, [o] { drain(o); }); }
        o->a[0] = o->fd; break; }
    case TEMP: o->s[1] = path(o, "tmp-"); o->s[2] = choose(2, "suffix") ? ".txt" : ""; o->s[3] = o->dst = path(o, "copy"); o->ptr = rnd(size_pick("wsize"), "wdata"); o->a[0] = o->ptr.size(); o->a[1] = choose(4, "tempkind"); break;
    case SLEEP: o->a[0] = range(0, 5, "sleep"); break;
    case STD: {
        o->s[0] = std_text("std0"); o->s[1] = std_text("std1"); o->a[0] = choose(7, "stdkind"); o->a[1] = (i64)entropy() >> choose(60, "num"); char b[64]; snprintf(b, 64, "%lld", (long long)o->a[1]);
        switch (o->a[0]) { case 0: o->out = o->s[0]; break; case 1: o->out = o->s[0] + "\n"; break; case 2: o->out = o->s[0] + b + o->s[1] + "\n"; break; case 3: o->out = o->s[0] + "=" + b + ";\n"; break; case 4: snprintf(b, 64, "%llu", (unsigned long long)o->a[1]); o->err = o->s[0] + b + o->s[1]; break; case 6: o->out = o->s[0]; break; default: o->ptr = rnd(size_pick("stdn") % 9000, "stdd"); o->a[2] = o->ptr.size(); o->out = o->ptr; } break; }
    case LOG: {
        o->s[0] = word(range(0, 60, "logn"), "log0"); o->s[1] = word(range(0, 20, "logn"), "log1"); o->a[0] = choose(5, "logkind"); o->a[1] = level = (int)choose(5, "loglevel"); o->a[2] = choose(1000000, "lognum"); std::string m = o->s[0];
        if (o->a[0] == 0) m += "/" + std::to_string(o->a[2]); else if (o->a[0] == 2) m += o->s[1]; else if (o->a[0] == 4) m = "error " + m; static const char *L[] = {"TRC", "DBG", "INF", "WRN", "ERR"}; if (o->a[0] >= level) o->out = std::string(" ") + L[o->a[0]] + " HARNESS    " + m + "\n"; break; }
    case COLLECT: o->cap = o->a[0] = choose(3, "capk") == 0 ? range(1, 8, "cap") : choose(2, "capm") ? 1024 : range(1, 2000, "cap"); script(o, false, true); break;
    case BSOCK: case SOCK: {
        o->cap = 1024; o->fd = sut_socketpair_fd(&o->ep, 65536, cap_pick("scap"), prof(false), prof(true)); o->srv = endpoint_of(o->fd); o->srv->log_tx = true; o->a[0] = o->fd; if (precise && coin(500, "timed")) o->timeout = range(5, 1500, "timeout"); o->a[1] = o->timeout; script(o, true, o->op == BSOCK); after(range(1, 200, "drain0") * US, [o] { drain(o); }); break; }
    }
    if (!C13 && !warm && coin(150, "arm") && file_faults.fail_after < 0) { static const int e[] = {EIO, EINTR, ENOSPC, EDQUOT, EMFILE, ENOMEM}; file_faults.fail_errno = e[choose(6, "errno")]; file_faults.fail_after = -1; armed_kind = (int)choose(7, "fail_at"); o->ctx = true; }
    count(NAME[o->op]); ev("task %d starts operation %d (%s %s %lld %lld)", task, o->no, NAME[o->op], o->s[0].substr(0, 60).c_str(), (long long)o->a[0], (long long)o->a[1]); return o;
}
static size_t errors_of(Op *o) { size_t n = 0; std::string p = "/d/" + std::to_string(o->no) + "-"; for (size_t i = o->err0; i < file_errors.size(); i++) if (!file_errors[i].path.compare(0, p.size(), p) || (file_errors[i].path.empty() && file_errors[i].fd == o->fd)) n++; return n; }
static std::string lasterr(Op *o) { std::string s; for (size_t i = o->err0; i < file_errors.size(); i++) s = file_errors[i].what; return s; }
static bool is_prefix(const std::string &p, const std::string &s) { return p.size() <= s.size() && !s.compare(0, p.size(), p); }
static void check_streams(Op *o) {
    std::string &lo = stdout_log; std::string want = o->out, got = lo;
    if (o->op == LOG && !want.empty() && got.size() > 19) {
        bool ok = false; for (i64 t = wall_ns() / (i64)SEC - 1; t <= wall_ns() / (i64)SEC; t++) { char b[32]; time_t tt = t; tm m; gmtime_r(&tt, &m); strftime(b, 32, "%Y-%m-%d %H:%M:%S", &m); if (got.substr(0, 19) == b && t * (i64)SEC + (i64)SEC > (i64)o->w0) ok = true; }
        if (!ok) BAD("log-time", "the log line of %s carries the time \"%s\"", WHO(o), got.substr(0, 19).c_str()); got = got.substr(19);
    }
    if (got != want) BAD("output", "%s wrote %zu bytes (\"%.60s\") to the standard output instead of %zu (\"%.60s\")", WHO(o), got.size(), got.c_str(), want.size(), want.c_str());
    if (last_stderr != o->err) BAD("output", "%s wrote %zu bytes (\"%.60s\") to the standard error instead of %zu (\"%.60s\")", WHO(o), last_stderr.size(), last_stderr.c_str(), o->err.size(), o->err.c_str());
    lo.clear(); last_stderr.clear();
}
static std::string written(Op *o, size_t upto) { std::string s; for (size_t i = 0; i < upto && i < o->pieces.size(); i++) s += o->pieces[i].data; return s; }
static void finish_op(Op *o, bool ok) {
    o->errs = errors_of(o); bool reported = !ok || o->nulls; o->ended = true; state_mark(mix(mix(o->op, reported), mix(o->errs > 0, o->silent * 4 + o->gone * 2 + o->missing)));
    ev("operation %d ends (%s)", o->no, ok ? "ok" : "failed"); count(ok ? "succeeded" : "reported_failure");
    if (o->errs && !reported && o->op < STD) BAD("swallowed", "%s reports success although the system reported an error (%s)", WHO(o), lasterr(o).c_str());
    bool shr = !o->shrinks.empty() && o->shrink_left == 0;
    bool excuse = o->errs || o->missing || o->too_big || (o->silent) || (o->gone && (o->op == PIPE_WRITE || o->op == COPY_FD)) || (o->seekpos > 0 && false) || (shr && (o->op == COPY_PATH || o->op == COPY_FD));
    if (!ok && !excuse) BAD("failed", "%s reports failure although nothing went wrong", WHO(o));
    if (!ok && o->silent && !o->errs && !o->gone && now_ns() - o->last_move < o->timeout * MS / 2 && o->op == PIPE_READ) BAD("early", "%s gives up %.3f ms after data arrived, although its timeout is %llu ms", WHO(o), (now_ns() - o->last_move) / 1e6, (unsigned long long)o->timeout);
    if (o->timeout && precise && (o->op == PIPE_READ) && now_ns() - o->last_move > (o->timeout + 30) * MS && !(ok && o->gone)) BAD("late", "%s ends %.3f ms after the last data arrived, although its timeout is %llu ms", WHO(o), (now_ns() - o->last_move) / 1e6, (unsigned long long)o->timeout);
    auto exact = [&](const std::string &got, const std::string &want, const char *what) { if (got != want) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++; BAD("bytes", "%s reports success, but %s %zu bytes instead of %zu (first difference at %zu)", WHO(o), what, got.size(), want.size(), d); } };
    switch (o->op) {
    case READALL: case READ_STR: case READ_BUF: case RD_ALL: case RD_ALL_INTO: case LOOP:
        if (ok && o->missing) BAD("invented", "%s succeeds although the file does not exist", WHO(o));
        if (ok && o->too_big && (o->op == READALL || o->op == RD_ALL)) break;
        if (ok && !o->nulls) { if (shr) { if (!is_prefix(o->got, o->data) || o->got.size() < content(o->s[0])->size()) BAD("bytes", "%s, whose file became shorter, returns %zu bytes that are not its beginning", WHO(o), o->got.size()); } else exact(o->got, o->data, "it has returned"); }
        else if (o->op == LOOP && !is_prefix(o->got, o->data)) BAD("bytes", "%s returns bytes that are not those of the file", WHO(o));
        break;
    case SEEK: if (o->errs || !ok) break; if (o->result != o->seekpos) BAD("seek", "%s moves to %lld instead of %lld", WHO(o), (long long)o->result, (long long)o->seekpos); exact(o->got, (size_t)o->seekpos < o->data.size() ? o->data.substr(o->seekpos) : "", "it has returned"); break;
    case SIZE: if (ok && (o->missing || o->result != (i64)o->data.size())) BAD("size", "%s reports %lld instead of %zu", WHO(o), (long long)o->result, o->data.size()); break;
    case PIPE_READ: if (ok) { if (!o->gone) BAD("invented", "%s reports the end although the writer has not closed", WHO(o)); exact(o->got, o->data, "it has returned"); } break;
    case PIPE_ALL: if (ok) exact(o->got, o->data, "it has returned"); break;
    case WRITE_FILE: { const std::string *c = content(o->s[0]); if (ok) { exact(c ? *c : "", o->want, "the file has"); if (o->result != (i64)o->ptr.size()) BAD("bytes", "%s reports %lld bytes instead of %zu", WHO(o), (long long)o->result, o->ptr.size()); } else if (c && o->a[2] != (O_WRONLY | O_CREAT) && !is_prefix(*c, o->want) && !is_prefix(o->before, *c)) BAD("bytes", "after %s failed, the file holds something else than a beginning", WHO(o)); break; }
    case PIPE_WRITE: if (ok && o->result != (i64)o->ptr.size()) BAD("bytes", "%s reports %lld bytes instead of %zu", WHO(o), (long long)o->result, o->ptr.size()); break;
    case COPY_PATH: if (ok) { if (o->missing) BAD("invented", "%s succeeds although the source does not exist", WHO(o)); if (!shr) exact(content(o->dst) ? *content(o->dst) : "", o->data, "the copy has"); } break;
    case COPY_FD: if (ok && !o->missing && !shr && o->dst.size()) exact(content(o->dst) ? *content(o->dst) : "", o->data, "the copy has"); if (ok && o->missing) BAD("invented", "%s succeeds although the source does not exist", WHO(o)); break;
    case TEMP: {
        if (ok && o->tmp.empty()) BAD("temp", "%s succeeds without a file", WHO(o)); bool keep = o->kept;
        if (ok && (o->a[1] == 2) && (!content(o->dst) || *content(o->dst) != o->ptr)) BAD("bytes", "%s: the copy of the temporary file has %zu bytes instead of %zu", WHO(o), content(o->dst) ? content(o->dst)->size() : 0, o->ptr.size());
        std::string p = "/d/" + std::to_string(o->no) + "-tmp-"; for (auto &v : vfs) if (!v.first.compare(0, p.size(), p) && !(keep && v.first == o->tmp)) BAD("temp", "%s is over, but its temporary file %s is still there", WHO(o), v.first.c_str());
        if (keep && ok) { if (!content(o->tmp)) BAD("temp", "%s kept its temporary file, but it is gone", WHO(o)); exact(*content(o->tmp), o->ptr, "the kept file has"); } break; }
    case STD: case LOG: check_streams(o); break;
    case COLLECT: exact(o->got, written(o, o->pieces.size()), "the stream has emitted"); break;
    case BSOCK: case SOCK: {
        std::string all = written(o, o->pieces.size()); bool ex = o->silent || o->gone || o->errs; const std::string &tx = o->srv->tx_log;
        if (!ex && o->failed) BAD("failed", "%s: the stream reports a failure although nothing went wrong", WHO(o)); if (!ex) exact(tx, all, "the connection carries"); else if (o->op == BSOCK && !is_prefix(tx, all)) BAD("bytes", "%s: the %zu bytes sent are not a beginning of what was written", WHO(o), tx.size());
        for (auto &p : o->pieces) if (p.op == 5 && p.a3 > 0) fd_close((int)p.a3); break; }
    }
    std::string p = "/d/" + std::to_string(o->no) + "-"; for (auto &f : list_fds()) if (!f.path.compare(0, p.size(), p) || (o->srv && f.ep == o->srv)) BAD("leak-fd", "%s is over, but descriptor %d (%s) is still open", WHO(o), f.fd, f.path.c_str());
    if (o->op < STD || o->op > LOG) { for (auto it = vfs.lower_bound(p); it != vfs.end() && !it->first.compare(0, p.size(), p);) it = vfs.erase(it); }
}
static void blocking(u64) { if (longest_block_ns() > 0) BAD("blocks", "an operation kept the whole program from running for %.3f ms", longest_block_ns() / 1e6); }
static void idle() {
    for (auto &t : T) if (t.cur && !t.done) BAD("hang", "%s never ends", WHO(t.cur));
    for (auto &o : ops) if ((o->op == PIPE_WRITE || o->op == COPY_FD || o->op == BSOCK || o->op == SOCK) && o->ep && !o->gone && o->ended) {
        if (!o->pend) { o->peer_in += o->ep->take(); if (!o->ep->rx_eof && !o->ep->was_rst) BAD("leak-fd", "the other side of %s never sees the end", WHO(o.get())); }
        if (o->op == PIPE_WRITE && !is_prefix(o->peer_in, o->ptr)) BAD("bytes", "the reader of %s received something else than what was written", WHO(o.get()));
        if (o->op == PIPE_WRITE && o->result >= 0 && o->peer_in != o->ptr) BAD("bytes", "%s reports success, but the reader received %zu bytes instead of %zu", WHO(o.get()), o->peer_in.size(), o->ptr.size());
        if (o->op == COPY_FD && o->shrinks.empty() && !o->errs && !o->missing && !o->silent && o->peer_in != o->data) BAD("bytes", "%s reports success, but the reader received %zu bytes instead of %zu", WHO(o.get()), o->peer_in.size(), o->data.size());
    }
    if (open_fds() != 1) BAD("leak-fd", "everything is over, but descriptors stay open: %s", describe_fds().c_str());
    count("runs_completed"); finish();
}
static void shrink(InodeP i, const std::string &p) {
    if (!current) return; for (auto &s : current->shrinks) if (s == p && current->shrink_left && i->data.size() > 1) { if (--current->shrink_left == 0) { fault("file_shrinks"); i->data.resize(choose(i->data.size(), "shrink_to")); ev("%s becomes shorter", p.c_str()); } }
}
static void setup() {
    P = opt("prop"); C13 = P == "C13"; if (!C13) P = "C11"; static std::string ll = P + ":livelock"; livelock_class = ll.c_str(); max_calls = 3000000; on_block = blocking; on_file_read = shrink; sim_signal(SIGPIPE, SIG_IGN);
    never_fd = sut_pipe_read_fd(&never_peer, 10); watch_always = never_fd; ntasks = (int)range(1, 8, "tasks"); T.resize(ntasks); for (auto &t : T) t.left = (int)range(1, 12, "nops"); precise = coin(600, "precise");
    if (coin(600, "fileshort")) file_faults.short_permille = (unsigned)range(50, 900, "fs_pm"); if (!C13 && coin(120, "disk")) file_faults.disk_cap = range(1000, 600000, "disk_cap");
    if (!precise) { if (coin(300, "stalls")) { sysf.stall_permille = (unsigned)range(1, 15, "stall_pm"); sysf.stall_max = range(1, 20, "stall_max") * MS; } }
    if (coin(100, "watchfail")) sysf.epoll_ctl_fail_permille = (unsigned)range(5, 200, "watch_pm");
    if (coin(300, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 200, "eintr_pm");
    if (coin(200, "spurious")) sysf.spurious_ready_permille = (unsigned)range(10, 100, "spur_pm");
}
static void exited(int code) { if (code == 0) { bool all = true; for (auto &t : T) if (!t.done) all = false; if (all) idle(); }
    BAD("exit", "the program ended (code %d): %s", code, last_stderr.substr(0, 300).c_str()); }
Harness sim::harness = {"io", setup, idle, exited};

extern "C" {
int hx_next(int id) {
    Task &t = T[id]; if (t.left-- <= 0) { t.done = true; t.cur = nullptr; return 0; }
    t.cur = current = new_op(id); t.cur->w0 = (u64)wall_ns(); if (t.cur->op == STD || t.cur->op == LOG) { stdout_log.clear(); last_stderr.clear(); }
    if (t.cur->ctx) file_faults.fail_after = armed_kind, file_arm(); return t.cur->op;
}
i64 hx_arg(int id, int k) { if (id < 0) return k ? never_fd : ntasks; Op *o = T[id].cur; if (o->pc) { Piece &p = o->pieces[o->pc - 1]; if (k == 2) return p.a2; if (k == 3) return p.a3; if (k == 4) return p.a4; } return o->a[k]; }
const char *hx_str(int id, int k) { Op *o = T[id].cur; if (o->pc) return o->pieces[o->pc - 1].s.c_str(); return o->s[k].c_str(); }
const char *hx_ptr(int id) { Op *o = T[id].cur; if (o->pc) return o->pieces[o->pc - 1].data.data(); return o->ptr.data(); }
void hx_got(int id, const void *d, i64 n) { T[id].cur->got.append((const char *)d, n); }
void hx_done(int id, int ok, i64 n) { Op *o = T[id].cur; if (ok == 2) { o->result = n; return; } if (ok == 3) { o->nulls++; return; } finish_op(o, ok == 1); if (current == o) current = nullptr; T[id].cur = nullptr; }
void hx_flush(int id, const void *d, i64 n) {
    Op *o = T[id].cur; o->got.append((const char *)d, n); std::string w = written(o, o->pc); if (!is_prefix(o->got, w)) BAD("bytes", "%s: the stream emits something else than what was written", WHO(o));
}
int hx_piece(int id) { Op *o = T[id].cur; if (o->pc >= o->pieces.size()) { o->pc = o->pieces.size() + 1; o->pieces.push_back({}); return 0; } return o->pieces[o->pc++].op; }
void hx_state(int id, int k) {
    Op *o = T[id].cur; if (k > 100) { o->failed = true; k -= 100; } if (!o->pc) return; std::string w = written(o, o->pc); const std::string &out = o->op == COLLECT ? o->got : o->srv->tx_log; bool ex = o->silent || o->gone || errors_of(o) || o->failed;
    if (o->failed && !(o->silent || o->gone || errors_of(o))) BAD("failed", "%s: the stream reports a failure although nothing went wrong", WHO(o));
    if (!ex) { if (!is_prefix(out, w)) BAD("bytes", "%s: the %zu bytes emitted are not a beginning of what was written", WHO(o), out.size()); if ((k == 2 || (k == 5 && o->op == BSOCK) || o->op == SOCK) && out != w) BAD("sync", "%s: after the stream was synced %zu of %zu bytes have been emitted", WHO(o), out.size(), w.size()); }
    if (!ex && o->op != SOCK && w.size() - out.size() > o->cap) BAD("bytes", "%s: the stream holds back %zu bytes although its buffer has only %zu", WHO(o), w.size() - out.size(), o->cap);
    if (o->pc && o->op != COLLECT && !o->ended && k != 4) current = o;
}
void hx_temp(int id, const char *name, int fd, i64 size) {
    Op *o = T[id].cur; std::string n(name); if (fd < 0) { o->kept = true; if (n != o->tmp) BAD("temp", "%s: the kept file is called %s instead of %s", WHO(o), name, o->tmp.c_str()); return; }
    if (n.compare(0, o->s[1].size(), o->s[1]) || n.size() != o->s[1].size() + 6 + (o->tmp.empty() ? o->s[2].size() : 0) || !content(n)) BAD("temp", "%s: the temporary file is called %s", WHO(o), name);
    if (size != (i64)o->ptr.size() || *content(n) != o->ptr) BAD("bytes", "%s: the temporary file %s holds %zu bytes (it says %lld) instead of %zu", WHO(o), name, content(n)->size(), (long long)size, o->ptr.size());
    if (o->tmp.empty()) o->tmp = n; else o->tmp2 = n;
}
}
