// HTTP server (C07, C08): clients good and bad, handlers whose work the harness decides, byte-exact response oracle.
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <algorithm>
using namespace sim;
static std::string P; static bool C08;
#define BAD(cls, ...) violate((P + ":" + cls).c_str(), __VA_ARGS__)

enum { R_HELLO, R_ECHO, R_PUT, R_ITEM, R_PAIR, R_HEAD, R_THING, R_OPT, R_IT, R_NONE };
static const char *METHOD[] = {"DELETE", "GET", "HEAD", "POST", "PUT", "CONNECT", "OPTIONS", "TRACE"};
struct Step { int op = 0; i64 a0 = 0, a1 = 0; std::string s0, s1; bool nofile = false; };
struct Client;
struct Req {
    int id = 0; Client *c = nullptr; int route = R_NONE, method = 1; std::string target, body, text; std::vector<std::pair<std::string, std::string>> headers; std::vector<std::string> params;
    bool bad = false, cut = false, close_req = false; std::vector<Step> steps; size_t pc = 0, hq = 0, pq = 0; int status = 200; std::vector<std::pair<std::string, std::string>> rh; bool close_resp = false, broken_file = false, lost_file = false; std::string want; // body
    int begun = 0, ended = 0, before = 0, after = 0; bool answered = false; u64 asked_at = 0; size_t end_at = 0; // offset in what the client sent
};
struct Client {
    int no = 0, kind = 0; EpP ep, srv; std::vector<Req *> reqs; size_t next = 0, answered = 0; std::string out, in, all; size_t pieces = 0; int mode = 0, reader = 0, finish = 0; bool gone = false, broke = false, opened = false, closing = false, got_end = false, stuck = false, pumping = false, failed_conn = false; u64 bytes_in = 0; size_t out_off = 0; int slow_ms = 0; size_t stall_at = ~(size_t)0; u64 t_open = 0; bool reading = false;
    bool good() const { return kind == 0; }
};
static std::vector<std::unique_ptr<Req>> reqs; static std::vector<std::unique_ptr<Client>> clients; static std::map<Endpoint *, Client *> by_srv; static int phase = 0, listen_fd = -1; static i64 base_bytes = -1, base_allocs; static int active_handlers = 0; static uint16_t cport = 21000; static std::vector<std::pair<std::string, std::string>> files; static std::set<Client *> in_handler; static bool fd_tight, file_err; static i64 visit = 0; static u64 server_fds = 0;
static std::string rnd(size_t n, const char *t) { std::string s(n, 0); u64 x = 0x9E3779B97F4A7C15ull * (1 + choose(100000, t)); for (auto &c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)x; } return s; }
static std::string word(size_t n, const char *t) { std::string s = rnd(n, t); for (auto &c : s) c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."[(unsigned char)c % 65]; return s; }
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static size_t size_pick(const char *t) { switch (choose(7, t)) { case 0: return 0; case 1: return range(1, 30, t); case 2: return range(1, 1100, t); case 3: return 1024 - choose(4, t) + choose(4, t); case 4: return 8192 - choose(300, t); case 5: return range(1, 40000, t); default: return 1; } }
static NetProfile prof(bool mine) {
    NetProfile p; p.lat_min = 5 * US; p.lat_max = range(5, 3000, "lat") * US; p.seg_mode = choose(4, "seg");
    if (!mine) { if (coin(300, "shorts")) p.short_permille = (unsigned)range(50, 900, "short_pm"); if (coin(150, "eagains")) p.eagain_permille = (unsigned)range(20, 300, "eagain_pm"); }
    return p;
}
static size_t cap_pick(const char *t) { switch (choose(4, t)) { case 0: return 65536; case 1: return range(20, 200, t); case 2: return range(1, 3000, t); default: return 16384; } }
static const char *who(const Req *r) { static char b[4][200]; static int k; char *s = b[k++ & 3]; snprintf(s, 200, "request %d (%s %s, number %zu of client %d)", r->id, r->text.substr(0, r->text.find(' ')).substr(0, 12).c_str(), r->target.substr(0, 60).c_str(), (size_t)(std::find(r->c->reqs.begin(), r->c->reqs.end(), r) - r->c->reqs.begin()) + 1, r->c->no); return s; }

// ---- what is asked, and what the handler will do
static void plan_answer(Req *r, bool warm) {
    if (r->route == R_NONE) { r->status = 404; return; }
    int n = (int)choose(5, "steps"); bool chunks = coin(350, "chunks"), body = false; bool had_status = false; auto st = [&](Step s) { r->steps.push_back(s); };
    for (int i = 0; i < n; i++) {
        Step s;
        switch (choose(warm ? 3 : 8, "step")) {
        case 0: case 1: {
            std::string d = rnd(size_pick("len"), "data");
            if (chunks) { switch (choose(4, "chunkkind")) {
                case 0: s.op = 2; s.s0 = d; s.a0 = (i64)d.size(); break;
                case 1: for (auto &c : d) if (!c) c = 'x'; s.op = 8; s.s0 = d; break;
                case 2: s.op = 10; s.s0 = d; s.a0 = (i64)d.size(); break;
                default: { if (files.empty()) continue; auto &f = files[choose(files.size(), "file")]; s.op = 3; s.s0 = f.first; s.a1 = (i64)choose(f.second.size() + 1, "off"); s.a0 = (i64)choose(f.second.size() - s.a1 + 1, "cnt"); if (!warm && coin(60, "promise")) { s.a0 += (i64)range(1, 500, "extra"); } d = f.second.substr(s.a1, s.a0); if (d.size() < (size_t)s.a0) { fault("file_shorter_than_promised"); r->broken_file = true; d.resize(s.a0); } break; } }
                r->want += d; st(s);
            } else { if (!body && coin(200, "whole")) { s.op = 9; r->want = d; } else { s.op = 1; r->want += d; } body = true; s.s0 = d; s.a0 = (i64)d.size(); st(s); }
            break; }
        case 2: { s.op = 5; s.s0 = "X-R" + std::to_string(choose(4, "rh")); s.s1 = coin(100, "rhempty") ? "" : word(range(1, 60, "rhl"), "rhv"); for (auto &h : r->rh) if (h.first == s.s0) { h.second = s.s1; goto had; } r->rh.push_back({s.s0, s.s1}); had: st(s); break; }
        case 3: s.op = 4; s.a0 = (i64)range(1, coin(200, "longsleep") ? 400 : 20, "ms"); st(s); break;
        case 4: s.op = 7; st(s); break;
        case 5: { static const int codes[] = {200, 201, 204, 304, 403, 404, 500}; s.op = 6; s.a0 = codes[choose(7, "code")]; if (had_status) break; had_status = true; r->status = (int)s.a0; st(s); break; }
        case 6: if (coin(200, "rclose")) { s.op = 5; s.s0 = coin(500, "cc") ? "Connection" : "connection"; static const char *v[] = {"close", "Close", "CLOSE"}; s.s1 = v[choose(3, "closev")]; r->close_resp = true; st(s); } break;
        default: break;
        }
    }
}
static Req *new_req(Client *c, bool warm) {
    reqs.emplace_back(new Req); Req *r = reqs.back().get(); r->id = (int)reqs.size() - 1; r->c = c; c->reqs.push_back(r);
    std::string q = "?id=" + std::to_string(r->id); if (coin(200, "query")) q += "&x=" + word(range(1, coin(50, "longq") ? 3000 : 30, "ql"), "qv");
    static const int ms[] = {1, 3, 4, 1, 1, 2, 0, 6, 1}; r->route = (int)choose(10, "route"); r->method = r->route < R_NONE ? ms[r->route] : 1;
    auto seg = [&] { std::string s = word(range(1, 20, "segl"), "segv"); r->params.push_back(s); return s; };
    switch (r->route) {
    case R_HELLO: r->target = "/hello"; break; case R_ECHO: r->target = "/echo"; break; case R_PUT: r->target = "/put/" + seg(); break; case R_ITEM: r->target = "/item/" + seg(); if (r->params[0] == "pair") r->params[0] = "pear", r->target = "/item/pear"; break;
    case R_PAIR: { std::string a = seg(), b = seg(); r->target = "/item/pair/" + a + "/" + b; break; } case R_HEAD: r->target = "/head"; break; case R_THING: r->target = "/thing/" + seg(); break; case R_OPT: r->target = "/"; break; case R_IT: r->target = "/ite"; break;
    default: { static const char *t[] = {"/nothing", "/hell", "/hello2", "/item", "/item/a/b", "/item/pair/x", "/thing/1", "/echo", "/x/y/z", "/items"}; r->target = t[choose(10, "target")]; break; }
    }
    r->target += q; plan_answer(r, warm);
    std::string v = coin(80, "http10") ? "1.0" : "1.1"; bool ka = false;
    std::string s; if (coin(30, "crlf") ) s += "\r\n"; s += std::string(METHOD[r->method]) + " " + r->target + " HTTP/" + v + "\r\n";
    auto hdr = [&](const std::string &n, const std::string &val) { std::string name = n; if (coin(300, "case")) for (auto &ch : name) if (coin(500, "up")) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch)); s += name + ":" + (coin(800, "sp") ? " " : coin(500, "tab") ? "\t  " : "") + val + (coin(100, "trail") && val.size() ? coin(500, "trailtab") ? "\t" : "  " : "") + "\r\n"; };
    if (v == "1.1" || coin(500, "host")) { hdr("Host", "srv.example:8004"); r->headers.push_back({"Host", "srv.example:8004"}); }
    int nh = (int)choose(6, "headers"); for (int i = 0; i < nh; i++) { std::string n = "X-H" + std::to_string(i) + word(choose(6, "hnl"), "hn"), val = coin(150, "hempty") ? "" : word(range(1, coin(60, "hbig") ? 9000 : 80, "hvl"), "hv"); for (auto &ch : n) if (ch == '.') ch = 'Z'; if (val.size() > 6 && coin(300, "inner")) val[3] = ' ', val[4] = coin(500, "comma") ? ',' : ':'; r->headers.push_back({n, val}); hdr(n, val); }
    if (coin(110, "connhdr")) { static const char *cv[] = {"close", "Close", "keep-alive", "Keep-Alive", "close, TE", "TE,close", "keep-alive, TE", "TE, keep-alive"}; int k = (int)choose(8, "connv"); hdr("Connection", cv[k]); if (k < 2 || k == 4 || k == 5) r->close_req = true; else ka = true; r->headers.push_back({"Connection", cv[k]}); }
    else if (coin(60, "upgrade")) { // an offer the server may ignore
        static const char *cv[] = {"Upgrade", "upgrade, HTTP2-Settings", "keep-alive, Upgrade", ""}; int k = (int)choose(4, "upgradev"); bool first = coin(500, "upgradefirst");
        auto up = [&] { hdr("Upgrade", "h2c"); r->headers.push_back({"Upgrade", "h2c"}); };
        if (first) up(); if (*cv[k]) { hdr("Connection", cv[k]); r->headers.push_back({"Connection", cv[k]}); if (k == 2) ka = true; } if (!first) up(); if (!*cv[k] && coin(500, "upgradeconn")) { hdr("Connection", "close"); r->headers.push_back({"Connection", "close"}); r->close_req = true; }
    }
    if (v == "1.0" && !ka) r->close_req = true;
    bool body = r->method == 3 || r->method == 4 ? coin(850, "hasbody") : coin(60, "getbody"); if (r->method == 2) body = false;
    if (body) {
        r->body = coin(70, "smuggle") ? "GET /hello?id=0 HTTP/1.1\r\n\r\n" : rnd(size_pick("bodylen"), "body");
        if (v == "1.1" && coin(400, "chunked")) {
            static const char *te[] = {"chunked", "Chunked", "CHUNKED", "identity, chunked", "identity,\tchunked"}; hdr("Transfer-Encoding", te[coin(300, "te") ? choose(5, "tekind") : 0]); s += "\r\n"; size_t i = 0;
            while (i < r->body.size()) { size_t n = std::min(r->body.size() - i, (size_t)range(1, 5000, "chunk")); char b[40]; snprintf(b, sizeof b, coin(500, "hex") ? "%zx" : "%zX", n); s += b; if (coin(80, "ext")) s += ";a=b"; s += "\r\n" + r->body.substr(i, n) + "\r\n"; i += n; }
            s += "0\r\n"; if (coin(80, "trailer")) s += "X-Trail: 1\r\n"; s += "\r\n";
        } else { hdr("Content-Length", (coin(60, "zeros") ? std::string(range(1, 12, "nzeros"), '0') : "") + std::to_string(r->body.size())); s += "\r\n" + r->body; }
    } else { if (r->method != 1 && coin(300, "cl0")) hdr("Content-Length", "0"); s += "\r\n"; }
    r->text = s; return r;
}
static void spoil(Req *r) { // not HTTP
    r->bad = true; std::string &s = r->text, evil = "GET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\n\r\n", t = "POST /echo?id=" + std::to_string(r->id); r->body = ""; const char *what = "";
    switch (choose(30, "spoil")) {
    case 0: what = "unknown_method"; s = "GRAB /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\nHost: a\r\n\r\n"; break;
    case 1: what = "no_version"; s = "GET /hello?id=" + std::to_string(r->id) + " FTP/1.1\r\n\r\n"; break;
    case 2: what = "bad_version"; s = "GET /hello?id=" + std::to_string(r->id) + " HTTP/x.1\r\n\r\n"; break;
    case 3: what = "header_name"; s = "GET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\nBad(Name: 1\r\n\r\n"; break;
    case 4: what = "header_no_colon"; s = "GET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\nNoColonHere\r\n\r\n"; break;
    case 5: what = "header_control"; s = "GET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\nX-A: a\x01z\r\n\r\n"; break;
    case 6: what = "length_text"; s = t + " HTTP/1.1\r\nContent-Length: abc\r\n\r\n" + evil; break;
    case 7: what = "length_negative"; s = t + " HTTP/1.1\r\nContent-Length: -5\r\n\r\n" + evil; break;
    case 8: what = "length_twice"; s = t + " HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\n" + evil; break;
    case 9: what = "length_overflow"; s = t + " HTTP/1.1\r\nContent-Length: 18446744073709551617\r\n\r\n" + evil; break;
    case 10: what = "length_and_chunked"; s = t + " HTTP/1.1\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n" + evil; break;
    case 11: what = "chunk_size"; s = t + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + evil; break;
    case 12: what = "chunk_end"; s = t + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcXX0\r\n\r\n" + evil; break;
    case 13: what = "unknown_coding"; s = t + " HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n" + evil; break;
    case 14: what = "rubbish"; s = rnd(range(4, 400, "rubl"), "rub"); s[0] = '\x80'; break;
    case 15: what = "space_in_target"; s = "GET /hello x?id=" + std::to_string(r->id) + " HTTP/1.1\r\n\r\n"; break;
    case 16: what = "control_in_target"; s = std::string("GET /hel\x01lo?id=") + std::to_string(r->id) + " HTTP/1.1\r\n\r\n"; break;
    case 17: what = "chunk_overflow"; s = t + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + (coin(400, "ovf_f") ? "fffffffffffffffff1\r\n" : std::string(1, "123456789abcdef"[coin(600, "ovf_1") ? 0 : choose(15, "ovf_digit")]) + std::string(15, '0') + (coin(500, "ovf_5") ? "5" : "000000000000005") + "\r\nhello\r\n0\r\n\r\n") + evil; break;
    case 20: what = "chunked_not_last"; s = t + " HTTP/1.1\r\nTransfer-Encoding: chunked, gzip\r\n\r\n0\r\n\r\n" + evil; break;
    case 21: what = "chunked_and_length"; s = t + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\nContent-Length: 5\r\n\r\n0\r\n\r\n" + evil; break;
    case 22: what = "length_plus"; s = t + " HTTP/1.1\r\nContent-Length: +5\r\n\r\nabcde" + evil; break;
    case 23: what = "length_two_numbers"; s = t + " HTTP/1.1\r\nContent-Length: 5 6\r\n\r\nabcde" + evil; break;
    case 24: what = "length_hex"; s = t + " HTTP/1.1\r\nContent-Length: 0x5\r\n\r\nabcde" + evil; break;
    case 25: what = "space_before_colon"; s = "GET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\nHost : a\r\n\r\n"; break;
    case 26: what = "nul_in_header"; s = "GET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\nX-A: a" + std::string(1, 0) + "b\r\n\r\n"; break;
    case 27: what = "version_number"; s = "GET /hello?id=" + std::to_string(r->id) + (coin(500, "v") ? " HTTP/1.7\r\nHost: a\r\n\r\n" : " HTTP/11\r\nHost: a\r\n\r\n"); break;
    case 28: what = "chunk_length_empty"; s = t + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n\r\n" + evil; break;
    case 29: what = "length_huge"; s = t + " HTTP/1.1\r\nContent-Length: " + (coin(500, "wrap") ? "1844674407370955162" : std::to_string(range(19, 99, "huge")) + "000000000000000000") + std::to_string(range(0, 9, "huge")) + "\r\n\r\n" + evil; break;
    case 18: what = "method_case"; s = "gET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\n\r\n"; break;
    default: what = "bare_cr"; s = "GET /hello?id=" + std::to_string(r->id) + " HTTP/1.1\r\nX-A: a\rX\r\n\r\n"; break;
    }
    fault((std::string("malformed_") + what).c_str());
}
// ---- the client's side of a connection
static void client_input(Client *c); static void client_send(Client *c);
static bool after_bad(const Client *c) { for (size_t i = 0; i < c->next; i++) if (c->reqs[i]->bad) return true; return false; }
static void leave(Client *c, int how) {
    if (c->gone) return; c->gone = true; if (c->ep->closed) return;
    if (how == 2) { fault("client_reset"); ev("client %d resets", c->no); c->ep->reset(); } else { ev("client %d closes", c->no); if (how != 3) c->in += c->ep->take(); c->ep->close_(); }
}
static void queue_next(Client *c) { if (c->next < c->reqs.size()) { Req *r = c->reqs[c->next++]; r->asked_at = now_ns(); c->out += r->text; c->all += r->text; r->end_at = c->all.size(); client_send(c); } }
static void client_send(Client *c) {
    if (c->gone || c->ep->was_rst || c->pumping || !c->opened) return;
    if (c->out.empty()) { if (c->mode == 2 && c->next < c->reqs.size()) { if (c->answered + 3 > c->next || coin(300, "ahead")) queue_next(c); } return; }
    size_t n = c->out.size(); switch (c->pieces) { case 0: break; case 1: n = 1 + choose(n, "piece"); break; case 2: n = std::min<size_t>(n, 1 + choose(40, "piece")); break; default: n = 1; }
    if (c->stall_at != ~(size_t)0 && c->out_off + n > c->stall_at) n = c->stall_at - c->out_off;
    size_t k = n ? c->ep->send(c->out.substr(0, n)) : 0; c->out.erase(0, k); c->out_off += k;
    if (c->out_off == c->stall_at) { // stops in the middle
        c->stuck = true; ev("client %d stops after %zu bytes", c->no, c->out_off);
        switch (c->kind) {
        case 2: after(range(1, 3000, "cut") * US, [c] { fault("request_cut_close"); leave(c, 1); }); break;
        case 3: after(range(1, 3000, "cut") * US, [c] { fault("request_cut_reset"); leave(c, 2); }); break;
        case 4: fault("request_stalled"); after(range(50, 3000, "stall") * MS, [c] { leave(c, 1 + (int)choose(2, "how")); }); break;
        default: fault("request_cut_halfclose"); c->ep->shutdown_wr(); after(range(2000, 5000, "hc") * MS, [c] { leave(c, 1); }); break;
        }
        return;
    }
    if (c->out.empty()) { if (c->finish == 1 && c->next == c->reqs.size() && c->good()) { ev("client %d has sent its last byte", c->no); fault("client_half_close"); c->ep->shutdown_wr(); } else if (c->mode == 2) client_send(c); return; }
    c->pumping = true; u64 d = k ? range(1, c->slow_ms ? c->slow_ms * 1000 : 300, "gap") * US : 500 * US; after(d, [c] { c->pumping = false; client_send(c); });
}
// Returns how many bytes at the start of d are the complete response to r, 0 if more is needed
static size_t response(Client *c, Req *r, const std::string &d) {
    size_t he = d.find("\r\n\r\n"); auto start = [&](const std::string &w) { return d.compare(0, std::min(d.size(), w.size()), w, 0, std::min(d.size(), w.size())) == 0; };
    if (!start("HTTP/1.1 ")) BAD("garbled", "client %d: instead of a response to %s come the bytes \"%.40s\"", c->no, who(r), d.c_str());
    if (he == std::string::npos) { if (d.size() > 100000) BAD("garbled", "endless headers in the response to %s", who(r)); return 0; }
    size_t p = d.find("\r\n"); std::string line = d.substr(0, p); int code = atoi(line.c_str() + 9); std::vector<std::pair<std::string, std::string>> h;
    while (p < he) { size_t e = d.find("\r\n", p + 2); std::string l = d.substr(p + 2, e - p - 2); size_t co = l.find(':'); if (co == std::string::npos || co == 0) BAD("garbled", "the response to %s has a header line \"%.60s\"", who(r), l.c_str()); std::string v = l.substr(co + 1); while (v.size() && (v[0] == ' ')) v.erase(0, 1); h.push_back({lower(l.substr(0, co)), v}); p = e; }
    auto get = [&](const std::string &n, int *cnt) { std::string v; *cnt = 0; for (auto &x : h) if (x.first == lower(n)) { v = x.second; ++*cnt; } return v; };
    int n; bool must_close = r->close_req || r->close_resp || r->bad; size_t body = he + 4;
    if (r->bad) { if (code < 400 || code > 599) BAD("accepted-malformed", "malformed %s was answered with status %d", who(r), code); }
    else if (r->route == R_NONE) { if (code < 400 || code > 499) BAD("status", "%s has no route but was answered with status %d", who(r), code); }
    else {
        if (!r->begun) BAD("invented", "client %d received a response (status %d) to %s although its handler has not run", c->no, code, who(r));
        if (!r->ended) BAD("early", "client %d received a response to %s while its handler still runs", c->no, who(r));
        if (code != r->status) BAD("status", "%s was answered with status %d, its handler said %d", who(r), code, r->status);
        for (auto &x : r->rh) { std::string v = get(x.first, &n); if (n != 1 || v != x.second) BAD("header", "the response to %s has %d headers %s, value \"%.50s\"; its handler set \"%.50s\"", who(r), n, x.first.c_str(), v.c_str(), x.second.c_str()); }
        for (auto &x : h) if (x.first.rfind("x-r", 0) == 0) { bool known = false; for (auto &y : r->rh) if (lower(y.first) == x.first) known = true; if (!known) BAD("header", "the response to %s has a header %s of another response", who(r), x.first.c_str()); }
    }
    std::string cl = get("content-length", &n), co; int nco; co = get("connection", &nco); get("transfer-encoding", &nco); if (nco) BAD("framing", "the response to %s has a transfer coding", who(r)); co = lower(get("connection", &nco));
    if (nco > 1) BAD("framing", "the response to %s has %d Connection headers", who(r), nco);
    if (must_close && nco && co != "close" && !r->bad) BAD("framing", "the response to %s says \"Connection: %s\" although the connection ends with it", who(r), co.c_str());
    if (!must_close && co == "close" && !r->lost_file) BAD("framing", "the response to %s says the connection ends although nobody asked for that", who(r));
    bool bodyless = code == 204 || code == 304 || (!r->bad && r->method == 2); size_t len = 0;
    if (code == 204 && n) BAD("framing", "the response to %s has status 204 and a content length", who(r));
    if (code != 204 && code != 304) { if (n != 1) BAD("framing", "the response to %s has %d content lengths", who(r), n); len = strtoull(cl.c_str(), nullptr, 10); if (cl.empty() || cl.find_first_not_of("0123456789") != std::string::npos) BAD("framing", "the response to %s has the content length \"%s\"", who(r), cl.c_str()); }
    bool own = !r->bad && r->route != R_NONE, standard = own && r->want.empty() && code != 200 ;
    if (own && !standard && code != 204 && code != 304 && !r->lost_file && len != r->want.size()) BAD("body", "the response to %s announces %zu bytes, its handler produced %zu", who(r), len, r->want.size());
    if (bodyless) len = 0;
    size_t have = std::min(len, d.size() - body);
    if (own && !bodyless && !standard && !r->lost_file && memcmp(d.data() + body, r->want.data(), r->broken_file ? 0 : have)) { size_t i = 0; while (d[body + i] == r->want[i]) i++; BAD("body", "byte %zu of %zu of the response to %s is not what its handler produced", i, len, who(r)); }
    if (d.size() - body < len) return 0;
    if (r->broken_file && !r->lost_file && !bodyless) BAD("broken-file", "the response to %s is complete although the file it was to come from ended early", who(r));
    return body + len;
}
static void parse_in(Client *c) {
    for (;;) {
        if (c->in.empty()) break;
        if (c->answered >= c->reqs.size() || (c->answered >= c->next && c->answered < c->reqs.size())) BAD("extra", "client %d received %zu bytes (\"%.40s\") after the answers to all its requests", c->no, c->in.size(), c->in.c_str());
        Req *r = c->reqs[c->answered]; bool bad = r->bad; if (!bad && r->end_at > c->out_off + 0 && !r->cut) BAD("early", "client %d is answered before %s was sent", c->no, who(r));
        size_t k = response(c, r, c->in); if (!k) break;
        if (r->cut) { int code = atoi(c->in.c_str() + 9); if (code < 400) BAD("answered-cut", "%s was never completed but answered with status %d", who(r), code); }
        c->in.erase(0, k); r->answered = true; c->answered++; count("responses"); ev("client %d has the answer to request %d", c->no, r->id);
        if (bad || r->close_req || r->close_resp) { c->closing = true; }
        if (c->mode == 0 && !c->closing) { if (c->next < c->reqs.size()) after(range(1, coin(200, "think") ? 50000 : 500, "think_us") * US, [c] { if (!c->gone) queue_next(c); }); }
        else if (c->mode == 2) after(US, [c] { client_send(c); });
        if (c->answered == c->reqs.size() && c->good() && !c->closing && c->finish != 1) { int how = c->finish == 2 ? 2 : 1; after(range(1, coin(300, "linger") ? 40000 : 300, "linger_us") * US, [c, how] { leave(c, how); }); }
    }
}
static void client_input(Client *c) {
    if (c->gone) return;
    if (c->ep->was_rst && !c->opened) { c->failed_conn = true; c->gone = true; return; }
    if (c->reader == 0 || c->ep->rx_eof || c->ep->was_rst) c->in += c->ep->take();
    else if (c->reader == 1) { if (!c->reading) { c->reading = true; after(range(1, 3000, "rd") * US, [c] { c->reading = false; if (c->gone) return; c->in += c->ep->take(1 + choose(4000, "rdn")); parse_in(c); if (!c->ep->rx.empty() || c->ep->rx_eof) client_input(c); }); } return; }
    else return; // never reads
    parse_in(c);
    if ((c->ep->rx_eof && c->ep->rx.empty()) || c->ep->was_rst) {
        if (c->got_end) return; c->got_end = true; ev("client %d sees the end%s", c->no, c->ep->was_rst ? " (reset)" : "");
        Req *r = c->answered < c->reqs.size() ? c->reqs[c->answered] : nullptr;
        bool excused = c->closing || c->broke || (r && r->bad) || file_err || c->kind != 0;
        for (auto q : c->reqs) if (q->broken_file && q->begun) excused = true; // closing at once may reset the connection and destroy earlier answers on their way
        bool asked_end = c->finish == 1 && c->ep->fin_sent;
        if (!excused && r) BAD("closed", "the server closed the connection of client %d (%s) before the answer to %s was complete (%zu bytes of it)", c->no, c->ep->was_rst ? "reset" : "end", who(r), c->in.size());
        if (!excused && !r && !asked_end) BAD("closed", "the server closed the connection of client %d although neither side had asked for that", c->no);
        if (c->ep->was_rst && !excused) BAD("closed", "the server reset the connection of client %d", c->no);
        after(range(1, 200, "bye") * US, [c] { leave(c, 1); });
    }
}
static void arrive(Client *c) {
    Addr from = v4("10.0.0.9", 0); from.ip[3] = (uint8_t)range(2, 200, "client_ip"); from.port = ++cport;
    c->ep = actor_connect(v4("10.0.0.1", 8004), from, prof(true), prof(false), cap_pick("ccap"), cap_pick("scap")); c->srv = c->ep->peer.lock(); c->srv->log_tx = false; by_srv[c->srv.get()] = c; c->t_open = now_ns(); ev("client %d (kind %d, mode %d) connects", c->no, c->kind, c->mode);
    c->ep->on_event = [c] {
        if (c->gone) return;
        if (c->ep->was_rst && !c->opened) { c->gone = c->failed_conn = true; BAD("refused", "client %d could not connect", c->no); }
        if (c->ep->established && !c->opened) {
            c->opened = true;
            if (c->kind == 5) { fault("silent_client"); after(range(1, 3000, "silent") * MS, [c] { leave(c, 1 + (int)choose(2, "how")); }); return; }
            if (c->kind == 8) { u64 d = range(1, 30000, "rst_at") * US; after(d, [c] { fault("reset_at_random"); leave(c, 2); }); }
            if (c->mode == 1) while (c->next < c->reqs.size()) queue_next(c); else queue_next(c);
        }
        client_input(c);
    };
}
static Client *new_client(int kind, bool warm) {
    clients.emplace_back(new Client); Client *c = clients.back().get(); c->no = (int)clients.size(); c->kind = kind; c->mode = (int)choose(3, "cmode"); c->pieces = choose(4, "pieces"); if (c->pieces == 3 && coin(700, "nobytes")) c->pieces = 2; c->reader = coin(300, "slowreader") ? 1 : 0; c->finish = (int)choose(3, "finish"); c->slow_ms = coin(150, "slowsend") ? (int)range(1, 30, "slow_ms") : 0;
    if (warm) { c->mode = c->reader = c->finish = 0; c->pieces = 0; c->slow_ms = 0; }
    int n = warm ? 3 : (int)range(1, 6, "nreq"); for (int i = 0; i < n; i++) { Req *r = new_req(c, warm); size_t big = r->text.size(); if (big > 3000 && c->pieces >= 2) c->pieces = 1; if (r->close_req || r->close_resp) break; }
    if (kind == 1) { Req *l = c->reqs.back(); l->steps.clear(); l->rh.clear(); l->want = ""; l->close_req = l->close_resp = l->broken_file = false; l->status = 400; spoil(l); c->reqs.back()->headers.clear(); }
    if (kind >= 2 && kind <= 4 || kind == 6) { Req *l = c->reqs.back(); l->cut = true; size_t before = 0; for (auto r : c->reqs) if (r != l) before += r->text.size(); c->stall_at = before + range(1, l->text.size() - 1, "cut_at"); if (c->mode == 0 && coin(500, "pipel")) c->mode = 1; }
    if (kind == 7) { c->reader = 2; fault("never_reads"); after(range(200, 4000, "noread") * MS, [c] { leave(c, 2 + (int)choose(2, "how")); }); c->mode = 1; }
    return c;
}
// ---- judging
static void blocking(u64) {
    if (longest_block_ns() > 0) BAD("blocks", "an operation kept the whole server from running for %.3f ms", longest_block_ns() / 1e6);
    if (sut_backlog(v4("0.0.0.0", 8004)) > 0 && !accept_faults && !fd_tight) BAD("missed", "a connection waits to be accepted, but the server goes to sleep");
    for (auto &f : list_fds()) { if (!f.ep) continue; auto it = by_srv.find(f.ep.get()); if (it == by_srv.end()) continue; Client *c = it->second; if (in_handler.count(c)) continue;
        if (fd_readable(f.fd) && fd_writable(f.fd) && !f.ep->was_rst) BAD("missed", "client %d has sent something (or closed) and could be answered, but the server goes to sleep", c->no); }
}
static void idle() {
    for (auto &c : clients) {
        if (!c->ep) continue;
        if (!c->gone) { Req *r = c->answered < c->reqs.size() ? c->reqs[c->answered] : nullptr; if (r) BAD("hang", "client %d never gets the answer to %s (%zu bytes of it; handler %s)", c->no, who(r), c->in.size(), r->ended ? "ended" : r->begun ? "started" : "not started"); BAD("hang", "the connection of client %d is never closed by the server although %s", c->no, c->finish == 1 ? "the client closed its side" : "the last response said so"); }
        for (auto r : c->reqs) {
            if (r->begun != r->ended) BAD("hang", "the handler of %s never finished", who(r));
            if (c->good() && !r->bad && !r->answered && !c->broke && !(c->closing) && !file_err) { bool prev = false; for (auto q : c->reqs) if (q->broken_file && q->begun) prev = true; if (!prev && !r->broken_file) BAD("unanswered", "%s was never answered", who(r)); }
        }
    }
    for (auto &r : reqs) { if (r->before != r->after) BAD("middleware", "%s passed the middleware %d times on the way in and %d times on the way out", who(r.get()), r->before, r->after); }
    int extra = 0; for (auto &f : list_fds()) if (strcmp(f.kind, "listener")) extra++;
    if (C08 && extra) BAD("leak-fd", "all clients have gone, but the server keeps descriptors open: %s", describe_fds().c_str());
    if (phase == 0) { phase = 1; listen_fd = 1; Client *c = new_client(0, true); (void)c; after(MS, [c] { arrive(c); }); return; }
    if (phase == 1) { phase = 2; base_bytes = live_bytes(); base_allocs = live_allocs();
        int good = C08 ? (int)range(1, 4, "good") : (int)range(1, 8, "good"), bad = C08 ? (int)range(1, 4, "badc") : coin(150, "somebad") ? 1 : 0; u64 span = coin(400, "burst") ? 1 : range(1, 100, "span");
        if (coin(200, "stalls")) { sysf.stall_permille = (unsigned)range(1, 15, "stall_pm"); sysf.stall_max = range(1, 20, "stall_max") * MS; }
        if (coin(200, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 200, "eintr_pm");
        if (C08 && coin(150, "accfail")) { sysf.accept_fail_permille = (unsigned)range(20, 400, "acc_pm"); static const int e[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, EPROTO}; sysf.accept_errno = e[choose(5, "acc_errno")]; }
        if (C08 && coin(150, "fdlimit")) { sysf.fd_limit = (int)range(6, 9, "fd_limit"); fd_tight = true; fault("descriptors_scarce"); }
        if (coin(150, "fileshort")) file_faults.short_permille = (unsigned)range(50, 600, "fs_pm"); if (C08 && coin(80, "fileerr")) { file_faults.fail_after = (int)choose(5, "fail_after"); file_faults.fail_errno = EIO; file_err = true; }
        std::vector<Client *> cs; for (int i = 0; i < good; i++) cs.push_back(new_client(0, false)); for (int i = 0; i < bad; i++) cs.push_back(new_client(1 + (int)choose(8, "badkind"), false));
        for (auto c : cs) after(range(1, span * 1000, "arrive") * US, [c] { arrive(c); });
        return; }
    if (C08 && live_bytes() > base_bytes + 64) BAD("leak-memory", "all clients have gone, but the server holds %lld bytes more than before they came (%lld objects)", (long long)(live_bytes() - base_bytes), (long long)(live_allocs() - base_allocs));
    count("runs_completed"); finish();
}
static void setup() {
    P = opt("prop"); C08 = P == "C08"; if (P != "C07" && P != "C08") P = "C07"; static std::string ll = P + ":livelock"; livelock_class = ll.c_str(); max_calls = 3000000; on_block = blocking;
    vfs["/www"] = std::make_shared<Inode>(); vfs["/www"]->dir = true; int n = (int)choose(4, "nfiles"); for (int i = 0; i < n; i++) { std::string p = "/www/f" + std::to_string(i), d = rnd(size_pick("fsize"), "fdata"); auto f = std::make_shared<Inode>(); f->data = d; vfs[p] = f; files.push_back({p, d}); }
}
static void exited(int code) { BAD("exit", "the server ended (code %d): %s", code, last_stderr.substr(0, 300).c_str()); }
Harness sim::harness = {"http", setup, idle, exited};
static void mark() { u64 h = phase; for (auto &c : clients) if (c->ep) h = mix(h, c->answered * 64 + c->next * 8 + (c->gone ? 1 : 0) + (in_handler.count(c.get()) ? 2 : 0) + (c->srv->rx.empty() ? 0 : 4)); state_mark(h); }
static Req *find_req(const char *path, i64 n) { std::string s(path, n); size_t p = s.find("?id="); if (p == std::string::npos) return nullptr; size_t id = strtoull(s.c_str() + p + 4, nullptr, 10); return id < reqs.size() ? reqs[id].get() : nullptr; }

extern "C" {
i64 hx_conf(int) { return 0; }
i64 hx_mw(int k, const char *path, i64 n, i64 ctx) {
    Req *r = find_req(path, n); if (!r) BAD("invented", "the middleware sees a request \"%.*s\" that nobody sent", (int)std::min<i64>(n, 80), path);
    if (k == 0) { r->before++; if (r->before > 1) BAD("twice", "%s passed the middleware twice", who(r)); if (r->begun) BAD("middleware", "%s reached the middleware after its handler", who(r)); return 1000 + r->id; }
    if (ctx != 1000 + r->id) BAD("middleware", "the middleware's context of %s is that of another request", who(r)); if (!r->ended) BAD("middleware", "%s left the middleware before its handler ended", who(r)); r->after++; return 0;
}
int hx_begin(int route, int method, const char *path, i64 npath, const char *body, i64 nbody) {
    mark(); std::string pt(path, npath); Req *r = find_req(path, npath);
    if (!r) BAD("invented", "a handler runs for \"%.80s\", which nobody sent", pt.c_str());
    if (r->bad) BAD("accepted-malformed", "a handler runs for malformed %s", who(r));
    if (r->cut) BAD("answered-cut", "a handler runs for %s, which was never completed", who(r));
    if (r->begun++) BAD("twice", "the handler of %s runs twice", who(r));
    Client *c = r->c; if (r->end_at > c->out_off) BAD("early", "a handler runs for %s before all of it was sent", who(r));
    if (in_handler.count(c)) BAD("order", "the handler of %s runs while another request of that connection is being handled", who(r)); in_handler.insert(c);
    for (auto q : c->reqs) { if (q == r) break; if (q->route != R_NONE && !q->begun) BAD("order", "the handler of %s runs before that of %s", who(r), who(q)); }
    if (pt != r->target) BAD("request", "the handler of %s sees the path \"%.100s\"", who(r), pt.c_str());
    if (route != r->route) BAD("route", "%s was handled by route %d instead of %d", who(r), route, r->route);
    if (method != r->method) BAD("request", "the handler of %s sees method %d", who(r), method);
    if ((size_t)nbody != r->body.size() || memcmp(body, r->body.data(), nbody)) BAD("request", "the handler of %s sees a body of %lld bytes that is not the one sent (%zu bytes)", who(r), (long long)nbody, r->body.size());
    if (!r->before) BAD("middleware", "the handler of %s runs without the middleware", who(r));
    count("handled"); ev("handler of request %d starts", r->id); return r->id;
}
void hx_param(int id, int k, const char *p, i64 n) { Req *r = reqs[id].get(); std::string v = n < 0 ? "" : std::string(p, n); if (n < 0 || k >= (int)r->params.size() || v != r->params[k]) BAD("request", "the handler of %s sees \"%.60s\" as parameter %d instead of \"%s\"", who(r), n < 0 ? "(none)" : v.c_str(), k, k < (int)r->params.size() ? r->params[k].c_str() : ""); r->pq++; }
const char *hx_hdr(int id) { Req *r = reqs[id].get(); if (r->hq < r->headers.size()) return r->headers[r->hq].first.c_str(); if (r->hq == r->headers.size()) return "X-Absent"; return nullptr; }
void hx_hdrval(int id, int found, const char *p, i64 n) {
    Req *r = reqs[id].get(); size_t k = r->hq++; if (k == r->headers.size()) { if (found) BAD("request", "the handler of %s sees a header that was not sent", who(r)); return; }
    std::string v = found ? std::string(p, n) : ""; while (v.size() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); if (!found || v != r->headers[k].second) BAD("request", "the handler of %s sees header %s %s\"%.60s\" instead of \"%.60s\"", who(r), r->headers[k].first.c_str(), found ? "" : "(absent) ", v.c_str(), r->headers[k].second.c_str());
}
int hx_op(int id) { Req *r = reqs[id].get(); mark(); advance_to(now_ns() + choose(2, "compute") * 7 * US); return r->pc < r->steps.size() ? r->steps[r->pc++].op : 0; }
i64 hx_arg(int id, int k) { Req *r = reqs[id].get(); Step &s = r->steps[r->pc - 1]; return k ? s.a1 : s.a0; }
const char *hx_ptr(int id, int k) { Req *r = reqs[id].get(); Step &s = r->steps[r->pc - 1]; return k ? s.s1.c_str() : s.s0.c_str(); }
void hx_nofile(int id) { Req *r = reqs[id].get(); if (!fd_tight && !file_err) BAD("file", "a file for the response to %s could not be opened", who(r)); r->lost_file = true; }
void hx_end(int id) { Req *r = reqs[id].get(); r->ended++; in_handler.erase(r->c); ev("handler of request %d ends", id); }
}
