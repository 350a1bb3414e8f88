// HTTP client (C09): fetches against scripted servers, byte-exact request and response oracle.
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <algorithm>
using namespace sim;
#define BAD(cls, ...) violate("C09:" cls, __VA_ARGS__)
enum { GOOD, CUT, SPOILT, NOCONN, NOREAD, REQCUT, NOFILE, LATE };
static const char *KIND[] = {"answered completely", "answered in part", "answered with something that is not HTTP", "not connected", "never read", "cut off while it was sent", "given a file that does not exist", "answered before it was sent"};
struct Step { int op; std::string s[4]; i64 a = 0; };
struct Fetch {
    int no, task, kind = GOOD; Addr to; std::string url, method, resource, host; std::vector<Step> steps; size_t pc = 0; std::map<std::string, std::string> headers, args, fields; struct Up { std::string name, path, type, data; }; std::vector<Up> ups; std::string body, boundary, ctype; int bodykind = 0; bool builder = false;
    int status = 200; std::string want, text; size_t need = 0, cut = 0, at = 0; int framing = 0, how = 0, pieces = 0, conn_mode = 0; u64 conn_delay = 0; bool slow = false, either = false, early = false;
    EpP ep, cl; std::string in; bool parsed = false, req_done = false, replying = false, ended = false, left = false; int conns = 0, result = -1; u64 t0 = 0, t_conn = 0, t_tx = 0, stall0 = 0, socks0 = 0; size_t files0 = 0, take_left = 0;
};
static std::vector<std::unique_ptr<Fetch>> F;
struct Task { int left = 0, op = -1; bool ended = false; Fetch *f = nullptr; i64 arg[10] = {0}; std::string s[4]; u64 t0 = 0; }; static std::vector<Task> T; static std::deque<int> todo; static i64 base_bytes = -1, base_allocs; static int never_fd; static EpP never_peer; static std::vector<std::pair<std::string, std::string>> files;
static std::string rnd(size_t n, const char *t) { std::string s(n, 0); u64 x = 0x9E3779B97F4A7C15ull * (1 + choose(100000, t)); for (auto &c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)x; } return s; }
static std::string word(size_t n, const char *t) { std::string s = rnd(n, t); for (auto &c : s) c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."[(unsigned char)c % 65]; return s; }
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static size_t size_pick(const char *t) { switch (choose(8, t)) { case 0: return 0; case 1: return range(1, 30, t); case 2: return range(1, 1100, t); case 3: return 1024 - choose(4, t) + choose(4, t); case 4: return 8192 - choose(300, t); case 5: return range(1, 40000, t); case 6: return 8192 + choose(3, t) - 1; default: return 1; } }
static NetProfile prof(bool mine) {
    NetProfile p; p.lat_min = 5 * US; p.lat_max = range(5, 3000, "lat") * US; p.seg_mode = choose(4, "seg");
    if (!mine) { if (coin(300, "shorts")) p.short_permille = (unsigned)range(50, 900, "short_pm"); if (coin(150, "eagains")) p.eagain_permille = (unsigned)range(20, 300, "eagain_pm"); }
    return p;
}
static std::string who(const Fetch *f) { return "fetch " + std::to_string(f->no) + " (" + f->url.substr(0, 70) + ", task " + std::to_string(f->task) + ", " + KIND[f->kind] + ")"; }
#define WHO(f) who(f).c_str()
static bool disturbed(const Fetch *f) { return socket_faults != f->socks0 || file_errors.size() != f->files0; }

// ---- the answer
static void plan_answer(Fetch *f) {
    static const int codes[] = {200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 401, 404, 418, 500, 503, 599}; f->status = codes[choose(16, "status")];
    std::string b = rnd(size_pick("resp"), "respdata"), s; bool nobody = f->method == "HEAD" || f->status == 204 || f->status == 304;
    for (int n = coin(120, "interim") ? (int)range(1, 2, "ninterim") : 0; n > 0; n--) { static const char *i[] = {"HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 103 Early Hints\r\nLink: </a.css>\r\n\r\n", "HTTP/1.1 102 Processing\r\nX-A: 1\r\n\r\n", "HTTP/1.1 103 Early Hints\r\nContent-Length: 4\r\n\r\n"}; s += i[choose(4, "interimkind")]; count("interim_responses"); }
    f->framing = (int)choose(3, "framing"); bool v10 = f->framing != 1 && coin(100, "resp10");
    s += std::string(v10 ? "HTTP/1.0 " : "HTTP/1.1 ") + std::to_string(f->status); if (!coin(50, "noreason")) s += " " + std::string(coin(100, "emptyreason") ? "" : "Some Words"); s += "\r\n";
    auto hdr = [&](std::string n, const std::string &v) { if (coin(200, "case")) for (auto &c : n) if (coin(500, "up")) c = (char)(isupper(c) ? tolower(c) : toupper(c)); s += n + ":" + (coin(800, "sp") ? " " : coin(300, "tab") ? " \t " : "") + v + (coin(60, "ows") ? coin(500, "owstab") ? "\t" : "  " : "") + "\r\n"; };
    auto num = [&](size_t n) { return std::string(coin(60, "zeros") ? range(1, 12, "nzeros") : 0, '0') + std::to_string(n); };
    auto extra = [&] { for (int n = (int)choose(4, "rhn"); n > 0; n--) hdr("X-R" + word(choose(5, "rhnl"), "rhnv"), coin(150, "rhempty") ? "" : word(range(1, coin(60, "rhbig") ? 6000 : 60, "rhl"), "rhv")); };
    extra(); size_t body_at = 0; if (coin(150, "close_hdr") || f->framing == 2 && !v10 && coin(500, "close_eof")) hdr("Connection", "close"); else if (coin(100, "ka_hdr")) hdr("Connection", "keep-alive"); else if (coin(60, "upg_hdr")) { hdr("Connection", coin(500, "upg_list") ? "Upgrade" : "keep-alive, Upgrade"); hdr("Upgrade", "h2c"); count("upgrade_offered"); }
    if (nobody) { if (coin(f->status == 204 ? 150 : 500, "nb_cl")) hdr("Content-Length", std::to_string(b.size())); else if (f->method == "HEAD" && f->status != 204 && coin(300, "nb_te")) hdr("Transfer-Encoding", "chunked"); extra(); s += "\r\n"; b = ""; f->framing = 0; }
    else if (f->framing == 0) { hdr("Content-Length", num(b.size())); extra(); s += "\r\n"; body_at = s.size(); s += b; }
    else if (f->framing == 1) { static const char *te[] = {"chunked", "Chunked", "CHUNKED", "identity, chunked", "identity,chunked"}; hdr("Transfer-Encoding", te[coin(300, "te") ? choose(5, "tekind") : 0]); extra(); s += "\r\n"; body_at = s.size(); size_t i = 0; bool tiny = b.size() < 400 && coin(200, "tinychunks");
        while (i < b.size()) { size_t n = std::min(b.size() - i, (size_t)range(1, tiny ? 3 : 9000, "chunk")); char t[40]; snprintf(t, sizeof t, coin(500, "hex") ? "%zx" : "%zX", n); if (coin(30, "chunkzeros")) s += std::string(range(1, 6, "nchunkzeros"), '0'); s += t; if (coin(80, "ext")) s += ";a=b"; s += "\r\n" + b.substr(i, n) + "\r\n"; i += n; }
        s += coin(30, "lastzeros") ? "000\r\n" : "0\r\n"; for (int n = coin(80, "trailer") ? (int)range(1, 3, "ntrailer") : 0; n > 0; n--) s += "X-Trail" + std::to_string(n) + ": 1\r\n"; s += "\r\n"; }
    else { if (!v10 && coin(60, "te_identity")) { hdr("Transfer-Encoding", "identity"); count("identity_coding"); } extra(); s += "\r\n"; body_at = s.size(); s += b; }
    f->want = b; f->need = s.size(); f->text = s; if (!body_at) body_at = s.size();
    if (f->framing != 2 && coin(100, "junk")) f->text += coin(500, "junkkind") ? "HTTP/1.1 500 Oops\r\nContent-Length: 3\r\n\r\nbad" : rnd(range(1, 200, "junkl"), "junk");
    f->cut = f->text.size(); f->how = f->framing == 2 ? (coin(500, "eofhow") ? 1 : 0) : (int)choose(4, "afterhow"); // 0 FIN, 1 close, 2 and 3 stay
    if (f->kind == CUT) { f->how = (int)choose(4, "cuthow"); // 0 FIN, 1 close, 2 reset, 3 silence
        size_t lim = f->framing == 2 && f->how < 2 ? body_at : f->need; if (f->framing == 2 && f->how >= 2) lim++;
        switch (choose(4, "cutat")) { case 0: f->cut = choose(lim, "cut"); break; case 1: f->cut = lim - 1; break; case 2: f->cut = lim > 2 ? lim - 2 : 0; break; default: f->cut = std::min(body_at, lim - 1); break; } f->text.resize(f->cut); }
}
static void spoil(Fetch *f) {
    const char *what = ""; std::string ok = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", &s = f->text; f->how = (int)choose(4, "spoilhow");
    int k = (int)choose(22, "spoil"); if (f->method == "HEAD" && (k == 10 || k == 11 || k == 12 || k == 20)) k = 0; // bodies are not looked at
    switch (k) {
    case 0: what = "rubbish"; s = rnd(range(4, 400, "rubl"), "rub"); s[0] = '\x80'; break;
    case 1: what = "status_text"; s = "HTTP/1.1 abc OK\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 2: what = "version"; s = "HTTP/1.7 200 OK\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 3: what = "header_name"; s = "HTTP/1.1 200 OK\r\nBad(Name: 1\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 4: what = "header_no_colon"; s = "HTTP/1.1 200 OK\r\nNoColon\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 5: what = "header_control"; s = "HTTP/1.1 200 OK\r\nX-A: a\x01z\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 6: what = "length_text"; s = "HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\nhi"; break;
    case 7: what = "length_twice"; s = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nContent-Length: 1\r\n\r\nhi"; break;
    case 8: what = "length_negative"; s = "HTTP/1.1 200 OK\r\nContent-Length: -2\r\n\r\nhi"; break;
    case 9: what = "length_overflow"; s = "HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551618\r\n\r\nhi"; break;
    case 10: what = "chunk_size"; s = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nhi\r\n0\r\n\r\n"; break;
    case 11: what = "chunk_end"; s = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nhiXX0\r\n\r\n"; break;
    case 12: what = "chunk_overflow"; s = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n10000000000000002\r\nhi\r\n0\r\n\r\n"; break;
    case 13: what = "nul_in_header"; s = std::string("HTTP/1.1 200 OK\r\nX-A: a") + std::string(1, 0) + "b\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 14: what = "status_space"; s = "HTTP/1.1200 OK\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 15: what = "status_short"; s = "HTTP/1.1 20 OK\r\nContent-Length: 2\r\n\r\nhi"; break;
    case 16: what = "a_request"; s = "GET / HTTP/1.1\r\nHost: a\r\n\r\n" + ok; break;
    case 17: what = "other_protocol"; s = "SSH-2.0-OpenSSH_9.6\r\n"; break;
    case 18: what = "length_two_numbers"; s = "HTTP/1.1 200 OK\r\nContent-Length: 2 3\r\n\r\nhi"; break;
    case 19: what = "length_plus"; s = "HTTP/1.1 200 OK\r\nContent-Length: +2\r\n\r\nhi"; break;
    case 20: what = "chunk_empty_size"; s = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n\r\nhi\r\n0\r\n\r\n"; break;
    default: what = "protocol_name"; s = "HTTPS/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi"; break;
    }
    f->cut = f->need = s.size(); fault((std::string("malformed_") + what).c_str());
}
// ---- the request
static std::string pct(const std::string &s, Fetch *f) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%') { if (i + 2 >= s.size() || !isxdigit(s[i + 1]) || !isxdigit(s[i + 2])) BAD("request", "%s sends a broken percent code in \"%.60s\"", WHO(f), s.c_str()); o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else if (s[i] == '+') o += ' '; else if (isalnum((unsigned char)s[i]) || strchr("-._~*", s[i])) o += s[i]; else BAD("request", "%s sends the byte %d unencoded in \"%.60s\"", WHO(f), (unsigned char)s[i], s.c_str()); } return o; }
static void pairs(Fetch *f, const std::string &s, const std::map<std::string, std::string> &want, const char *what) {
    std::map<std::string, std::string> got; size_t i = 0; if (!s.empty()) for (;;) { size_t e = s.find('&', i); std::string p = s.substr(i, e == std::string::npos ? e : e - i); size_t q = p.find('='); if (q == std::string::npos) BAD("request", "%s sends a %s without a value: \"%.60s\"", WHO(f), what, p.c_str()); if (!got.insert({pct(p.substr(0, q), f), pct(p.substr(q + 1), f)}).second) BAD("request", "%s sends a %s twice: \"%.60s\"", WHO(f), what, p.c_str()); if (e == std::string::npos) break; i = e + 1; }
    if (got != want) BAD("request", "%s sends %zu %ss that are not the %zu given: \"%.100s\"", WHO(f), got.size(), what, want.size(), s.c_str());
}
static void multipart(Fetch *f, const std::string &b) {
    std::map<std::string, std::string> got; size_t up = 0, i = 0; std::string open = "--" + f->boundary, sep = "\r\n" + open;
    for (;;) {
        if (b.compare(i, open.size(), open)) BAD("request", "%s: part at byte %zu of the form does not start with the boundary", WHO(f), i); i += open.size();
        if (b.compare(i, 2, "--") == 0) { i += 2; if (i != b.size() && b.substr(i) != "\r\n") BAD("request", "%s: bytes after the end of the form", WHO(f)); break; }
        if (b.compare(i, 2, "\r\n")) BAD("request", "%s: boundary at byte %zu of the form is not followed by a new line", WHO(f), i); i += 2;
        size_t he = b.find("\r\n\r\n", i), e; if (he == std::string::npos) BAD("request", "%s: part without an end of its headers", WHO(f)); std::string h = b.substr(i, he - i); i = he + 4; std::string disp = "Content-Disposition: form-data; name=\"";
        if (h.compare(0, disp.size(), disp)) BAD("request", "%s: part with the headers \"%.80s\"", WHO(f), h.c_str()); h = h.substr(disp.size());
        size_t q = h.find('"'); std::string name = h.substr(0, q), rest = h.substr(q + 1);
        if (rest.empty()) { auto it = f->fields.find(name); if (it == f->fields.end()) BAD("request", "%s sends a field \"%.40s\" nobody gave", WHO(f), name.c_str()); std::string v = it->second; if (b.compare(i, v.size(), v)) BAD("request", "%s sends another value of field %s", WHO(f), name.c_str()); e = i + v.size(); if (!got.insert({name, v}).second) BAD("request", "%s sends field %s twice", WHO(f), name.c_str()); }
        else { if (up >= f->ups.size()) BAD("request", "%s sends more files than given", WHO(f)); auto &u = f->ups[up++]; std::string x = "; filename=\"" + u.path.substr(u.path.rfind('/') + 1) + "\"" + (u.type.empty() ? "" : "\r\nContent-Type: " + u.type); if (name != u.name || rest != x) BAD("request", "%s sends a file part \"%.40s\" with \"%.80s\"", WHO(f), name.c_str(), rest.c_str()); if (b.compare(i, u.data.size(), u.data)) BAD("request", "%s sends other contents of file %s", WHO(f), u.path.c_str()); e = i + u.data.size(); }
        if (b.compare(e, sep.size(), sep)) BAD("request", "%s: a part of the form does not end with its value", WHO(f)); i = e + 2;
    }
    if (got.size() != f->fields.size() || up != f->ups.size()) BAD("request", "%s sends %zu fields and %zu files of %zu and %zu", WHO(f), got.size(), up, f->fields.size(), f->ups.size());
}
static bool check_request(Fetch *f) { // true when it is complete
    size_t he = f->in.find("\r\n\r\n"); if (he == std::string::npos) { if (f->in.size() > 200000) BAD("request", "%s sends endless headers", WHO(f)); return false; }
    size_t p = f->in.find("\r\n"), len = 0; std::string line = f->in.substr(0, p); std::map<std::string, std::string> h;
    size_t a = line.find(' '), z = line.rfind(' '); if (a == std::string::npos || a == z || line.substr(z) != " HTTP/1.1" || line.substr(0, a) != f->method) BAD("request", "%s sends the request line \"%.100s\"", WHO(f), line.c_str());
    std::string target = line.substr(a + 1, z - a - 1); if (target.compare(0, f->resource.size(), f->resource)) BAD("request", "%s asks for \"%.100s\" (%.300s) instead of %.100s", WHO(f), target.c_str(), f->in.c_str(), f->resource.c_str()); std::string q = target.substr(f->resource.size());
    if (f->args.empty() ? !q.empty() : q.empty() || q[0] != (f->resource.find('?') == std::string::npos ? '?' : '&')) BAD("request", "%s asks for \"%.120s\"", WHO(f), target.c_str()); pairs(f, q.empty() ? q : q.substr(1), f->args, "argument");
    while (p < he) { size_t e = f->in.find("\r\n", p + 2); std::string l = f->in.substr(p + 2, e - p - 2); size_t co = l.find(": "); if (co == std::string::npos || co == 0) BAD("request", "%s sends a header line \"%.60s\"", WHO(f), l.c_str()); if (!h.insert({lower(l.substr(0, co)), l.substr(co + 2)}).second) BAD("request", "%s sends header %.60s twice", WHO(f), l.c_str()); p = e; }
    bool url = f->bodykind == 3 && f->ups.empty(); size_t expect = f->body.size(); auto clh = h.find("content-length"); if (clh != h.end()) { if (clh->second.empty() || clh->second.find_first_not_of("0123456789") != std::string::npos) BAD("request", "%s announces a body of \"%.40s\" bytes", WHO(f), clh->second.c_str()); len = strtoull(clh->second.c_str(), nullptr, 10); h.erase(clh); }
    for (auto &x : f->headers) { auto it = h.find(lower(x.first)); if (it == h.end() || it->second != x.second) BAD("request", "%s sends header %s as \"%.60s\" instead of \"%.60s\"", WHO(f), x.first.c_str(), it == h.end() ? "(none)" : it->second.c_str(), x.second.c_str()); h.erase(it); }
    if (!h.count("date")) BAD("request", "%s sends no date", WHO(f)); h.erase("date"); if (h.size()) BAD("request", "%s sends a header %s: %.60s nobody gave", WHO(f), h.begin()->first.c_str(), h.begin()->second.c_str());
    if (f->bodykind != 3 && len != expect) BAD("request", "%s announces %zu bytes of body, %zu were given", WHO(f), len, expect);
    size_t have = f->in.size() - he - 4; if (have > len) BAD("request", "%s sends %zu bytes after the end of its request", WHO(f), have - len); if (have < len) return false;
    std::string b = f->in.substr(he + 4); if (f->bodykind == 3) { if (url) pairs(f, b, f->fields, "field"); else multipart(f, b); } else if (b != f->body) BAD("request", "%s sends a body that is not the one given (%zu bytes)", WHO(f), b.size());
    return true;
}
static void build(Fetch *f) {
    static const char *M[] = {"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE"}; f->method = M[choose(8, "method")]; f->conn_mode = 0;
    f->to = v4("10.1.0.1", 80); f->to.ip[2] = (uint8_t)(f->no / 200); f->to.ip[3] = (uint8_t)(1 + f->no % 200); if (coin(700, "port")) f->to.port = (uint16_t)range(1, 65535, "portno");
    std::string host = "10.1." + std::to_string(f->to.ip[2]) + "." + std::to_string(f->to.ip[3]); if (coin(200, "named")) host = "srv" + std::to_string(f->no) + ".example";
    f->host = host + (f->to.port != 80 ? ":" + std::to_string(f->to.port) : ""); bool show80 = f->to.port == 80 && coin(200, "show80");
    f->resource = coin(150, "noresource") ? "" : "/" + word(choose(20, "resl"), "res") + (coin(200, "deep") ? "/" + word(range(1, coin(40, "longres") ? 9000 : 30, "resl"), "res") : ""); if (!f->resource.empty() && coin(250, "query")) f->resource += "?" + word(range(1, 9, "ql"), "q") + "=" + (coin(100, "urlinquery") ? "http://other.example:99/x" : word(choose(30, "ql"), "q"));
    bool scheme = !coin(100, "noscheme") || f->resource.find("://") != std::string::npos; std::string mm = f->method; if (coin(200, "lower")) mm = lower(mm); f->url = f->method == "GET" && coin(700, "plainget") ? "" : "@" + mm + std::string(range(1, 3, "blanks"), ' '); f->url += (scheme ? "http://" : "") + f->host + (show80 ? ":80" : "") + f->resource; if (f->resource.empty()) f->resource = "/";
    f->headers["host"] = f->host; f->headers["user-agent"] = "Cxy/0.0.1"; f->builder = coin(750, "builder") || f->kind == NOREAD || f->kind == REQCUT || f->kind == NOFILE; if (!f->builder) return;
    auto st = [&](int op, const std::string &a = "", const std::string &b = "", const std::string &c = "") { Step s; s.op = op; s.s[0] = a; s.s[1] = b; s.s[3] = c; f->steps.push_back(s); return &f->steps.back(); };
    for (int n = (int)choose(5, "nh"); n > 0; n--) { std::string k = "X-H" + std::to_string(n) + word(choose(5, "hl"), "hn"), v = coin(100, "hempty") ? "" : word(range(1, coin(60, "hbig") ? 9000 : 60, "hvl"), "hv"); if (coin(60, "agent")) k = "User-Agent"; for (auto &c : k) if (c == '.') c = 'z'; if (v.size() > 5 && coin(300, "inner")) v[2] = ' ', v[3] = ':'; f->headers[lower(k)] = v; st(1, k, v); }
    for (int n = (int)choose(4, "na"); n > 0; n--) { std::string k = word(1 + choose(9, "al"), "an") + std::to_string(n), v = coin(500, "abytes") ? rnd(choose(40, "avl"), "av") : word(choose(40, "avl"), "av"); if (coin(200, "akey")) k += "& =%/"; f->args[k] = v; st(2, k, v); }
    if (coin(100, "bsleep")) { Step *s = st(9); s->a = (i64)range(1, 50, "bsleep_ms"); }
    f->bodykind = f->method == "HEAD" || f->method == "TRACE" ? 0 : (int)choose(5, "bodykind"); bool big = f->kind == NOREAD || f->kind == REQCUT; if (big) { f->bodykind = 1; if (f->method == "HEAD" || f->method == "TRACE") { f->url = "@POST http://" + f->host + f->resource; f->method = "POST"; } } if (f->kind == NOFILE && (f->bodykind < 3 || files.empty())) f->bodykind = files.empty() || coin(500, "nofilekind") ? 4 : 3;
    if (f->kind == NOFILE && (f->method == "HEAD")) f->method = "HEAD";
    if (f->bodykind == 1 || f->bodykind == 2) { std::string d = big ? rnd(range(3000, 60000, "bigbody"), "bodyd") : rnd(size_pick("body"), "bodyd"); size_t k = f->bodykind == 2 ? choose(d.size() + 1, "bsplit") : d.size(); if (k) st(3, d.substr(0, k)); if (k < d.size()) st(4, d.substr(k)); f->body = d; }
    else if (f->bodykind == 3) {
        f->boundary = "b" + word(range(1, 40, "bl"), "bv"); for (auto &c : f->boundary) if (c == '.') c = 'x'; int n = (int)choose(4, "fields"); for (; n > 0; n--) { std::string k = "f" + std::to_string(n) + word(choose(9, "fl"), "fn"), v = coin(500, "fbytes") ? rnd(choose(60, "fvl"), "fv") : word(choose(coin(100, "fbig") ? 9000 : 60, "fvl"), "fv"); f->fields[k] = v; st(5, k, v); }
        if (!files.empty() && (coin(400, "uploads") || f->kind == NOFILE)) for (int n = (int)range(1, 3, "nup"); n > 0; n--) { auto &x = files[choose(files.size(), "upf")]; Fetch::Up u; u.name = "u" + word(choose(6, "ul"), "un"); u.path = x.first; u.data = x.second; u.type = coin(500, "utype") ? "text/x-" + word(4, "ut") : ""; if (f->kind == NOFILE && n == 1) u.path = "/www/missing"; f->ups.push_back(u); st(6, u.name, u.path, u.type); }
        st(7); f->headers["content-type"] = f->ups.empty() ? "application/x-www-form-urlencoded" : "multipart/form-data; boundary=" + f->boundary;
    } else if (f->bodykind == 4 && (!files.empty() || f->kind == NOFILE)) { std::pair<std::string, std::string> x = f->kind == NOFILE ? std::make_pair(std::string("/www/missing"), std::string()) : files[choose(files.size(), "bf")]; f->body = x.second; f->headers["content-type"] = "application/octet-" + word(3, "ct"); st(8, x.first, f->headers["content-type"]); }
}
// ---- the server
static void reply(Fetch *f);
static void farewell(Fetch *f) { // all that will be said was said
    f->ended = true; int how = f->how; if (f->kind == GOOD || f->kind == LATE) { if (how == 0) f->ep->shutdown_wr(); else if (how == 1) { if (f->req_done) f->ep->close_(); else f->ep->shutdown_wr(); } return; }
    if (f->left) return; if (how == 0) { fault("answer_ends_early"); f->ep->shutdown_wr(); } else if (how == 1) { fault("connection_closed_early"); f->ep->close_(); } else if (how == 2) { fault("connection_reset"); f->ep->reset(); } else fault("server_falls_silent");
}
static void reply(Fetch *f) {
    if (f->left || f->ended) return; if (f->ep->was_rst || f->ep->closed) return;
    size_t rest = f->cut - f->at, n = rest; if (f->pieces == 1) n = std::min(rest, (size_t)range(1, 3000, "piece")); else if (f->pieces == 2) n = std::min<size_t>(rest, range(1, 12, "piece")); else if (f->pieces == 3) n = std::min<size_t>(rest, 1);
    size_t k = n ? f->ep->send(f->text.substr(f->at, n)) : 0; f->at += k;
    if (f->at >= f->cut) { after(range(1, 300, "fare") * US, [f] { farewell(f); }); return; }
    u64 d = f->slow ? (coin(30, "long") ? range(1000, 18000, "pause") * MS : range(1, 30, "pause") * MS) : range(1, 300, "gap") * US; after(k ? d : 500 * US, [f] { reply(f); });
}
static void server(Fetch *f) {
    if (f->left) return; auto ep = f->ep;
    if (ep->was_rst) { f->left = true; return; }
    if (f->kind != NOREAD) { std::string d = ep->take(f->kind == REQCUT ? f->take_left - f->in.size() : (size_t)-1); f->in += d; if (!f->req_done) { f->req_done = check_request(f); if (f->req_done) { count("requests"); ev("server of fetch %d has the request", f->no); } } else if (d.size()) BAD("request", "%s sends %zu bytes after the end of its request", WHO(f), d.size()); }
    if (f->kind == REQCUT && f->in.size() >= f->take_left && !f->replying) { f->replying = true; after(range(1, 2000, "reqcut") * US, [f] { if (f->left) return; farewell(f); }); }
    if (f->req_done && !f->replying && f->kind != REQCUT) { f->replying = true; u64 d = coin(100, "think") ? range(1, 15000, "think_ms") * MS : range(1, 2000, "think_us") * US; after(d, [f] { reply(f); }); }
    if (ep->rx_eof && ep->rx.empty()) { f->left = true; ev("server of fetch %d sees the client's end", f->no); if (f->kind != NOREAD) ep->close_(); }
}
static Fetch *new_fetch(int task) {
    F.emplace_back(new Fetch); Fetch *f = F.back().get(); f->no = (int)F.size() - 1; f->task = task; f->kind = coin(550, "good") ? GOOD : (int)range(1, 7, "kind"); build(f); plan_answer(f);
    if (f->kind == SPOILT) spoil(f); if (f->kind == NOREAD) { f->how = 3; fault("server_never_reads"); } if (f->kind == REQCUT) { f->how = (int)choose(4, "reqcuthow"); f->take_left = 1 + choose(f->body.size(), "take"); } if (f->kind == LATE) f->early = f->either = true;
    if (f->kind == NOFILE) fault("file_missing"); f->pieces = (int)choose(4, "pieces"); if (f->text.size() > 3000 && f->pieces >= 2) f->pieces = 1; f->slow = coin(150, "slow"); if (f->slow && f->text.size() / (f->pieces == 1 ? 1000 : 6) > 300) f->slow = false;
    if (f->kind == NOCONN) { f->conn_mode = (int)range(1, 5, "conn_mode"); f->conn_delay = range(1, f->conn_mode == 3 ? 100 : 15000, "conn_delay") * MS; } else f->conn_delay = coin(100, "slowconn") ? range(1, 15000, "conn_ms") * MS : range(1, 2000, "conn_us") * US;
    static const int errs[] = {ENETUNREACH, EADDRNOTAVAIL, EACCES, EHOSTUNREACH}; int e = errs[choose(4, "conn_err")];
    if (!(f->kind == NOCONN && f->conn_mode == 1 && coin(500, "nobody"))) actor_listen(f->to, [f](EpP s) {
        f->ep = s; f->cl = s->peer.lock(); if (++f->conns > 1) BAD("request", "%s connects more than once", WHO(f)); s->prof = prof(true); f->cl->prof = prof(false); s->rcvcap = f->kind == NOREAD ? range(20, 2500, "nrcap") : f->kind == REQCUT ? 512 : coin(300, "rcap") ? range(20, 3000, "rcapn") : 65536; f->cl->rcvcap = coin(300, "ccap") ? range(1, 3000, "ccapn") : 65536;
        s->on_event = [f] { server(f); }; f->cl->on_sut_data = [f](EpP) { f->t_tx = now_ns(); }; s->on_sut_data = [f](EpP) { f->t_tx = now_ns(); }; f->t_tx = now_ns(); if (f->early) { f->replying = true; after(range(1, 3000, "early") * US, [f] { reply(f); }); }
    }, [f, e] { ConnectPolicy p; p.mode = f->conn_mode; p.delay = f->conn_delay; p.err = e; f->t_conn = now_ns(); return p; });
    return f;
}
// ---- judging
static void blocking(u64) {
    if (longest_block_ns() > 0) BAD("blocks", "an operation kept the whole program from running for %.3f ms", longest_block_ns() / 1e6);
    for (auto &f : F) if (f->result < 0 && f->t0 && f->cl && !f->cl->closed) for (auto &x : list_fds()) if (x.ep == f->cl && fd_readable(x.fd) && fd_writable(x.fd)) BAD("missed", "the answer to %s is there (or its connection has ended), but the program goes to sleep", WHO(f.get()));
}
static void left_open(const char *when) {
    for (auto &x : list_fds()) { if (x.fd == never_fd) continue; bool mine = false; for (auto &f : F) if (f->result < 0 && f->t0) mine = true; if (!mine) BAD("leak-fd", "%s, but a descriptor is still open: %s", when, describe_fds().c_str()); }
}
static void idle() {
    for (auto &f : F) { if (f->result < 0) BAD("hang", "%s never returns", WHO(f.get())); if (f->result == 1 && !f->req_done && f->kind != LATE) BAD("request", "%s returned a response without having sent its request", WHO(f.get())); if (f->result == 1 && f->kind == LATE && !f->req_done && !f->ep->was_rst && !f->ended) BAD("request", "%s never completed its request", WHO(f.get())); }
    bool named = false; for (auto &f : F) if (f->host[0] == 's') named = true; // the resolver keeps its files
    if (live_bytes() > base_bytes + 64 + (named ? 30000 : 0)) BAD("leak-memory", "all fetches have returned, but %lld bytes more than before the first are in use (%lld objects)", (long long)(live_bytes() - base_bytes), (long long)(live_allocs() - base_allocs));
    left_open("all fetches have returned"); count("runs_completed"); finish();
}
static void exited(int code) { BAD("exit", "the program ended (code %d) although its main task waits for ever: %s", code, last_stderr.substr(0, 300).c_str()); }
static void setup() {
    max_calls = 400000; on_block = blocking; livelock_class = "C09:livelock"; default_profile = prof(false);
    if (coin(200, "stalls")) { sysf.stall_permille = (unsigned)range(1, 20, "stall_pm"); sysf.stall_max = range(1, 30, "stall_max") * MS; }
    if (coin(80, "watchfail")) sysf.epoll_ctl_fail_permille = (unsigned)range(5, 100, "watch_pm");
    if (coin(200, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 300, "eintr_pm"); if (coin(80, "sockfail")) sysf.socket_fail_permille = (unsigned)range(20, 300, "sock_pm");
    vfs["/www"] = std::make_shared<Inode>(); vfs["/www"]->dir = true; int n = (int)choose(4, "nfiles"); for (int i = 0; i < n; i++) { std::string p = "/www/f" + std::to_string(i), d = rnd(size_pick("fsize"), "fdata"); auto f = std::make_shared<Inode>(); f->data = d; vfs[p] = f; files.push_back({p, d}); }
    if (coin(150, "fileshort")) file_faults.short_permille = (unsigned)range(50, 600, "fs_pm"); if (coin(60, "fileerr")) { file_faults.fail_after = (int)choose(8, "fail_after"); file_faults.fail_errno = EIO; }
    never_fd = sut_pipe_read_fd(&never_peer, 16); watch_always = never_fd; int nw = (int)range(1, 6, "workers"); T.resize(nw + 1); for (int i = 1; i <= nw; i++) { T[i].left = (int)range(1, 5, "ops"); todo.push_back(i); }
    std::string hosts = "127.0.0.1 localhost\n"; for (int i = 0; i < 60; i++) hosts += "10.1." + std::to_string(i / 200) + "." + std::to_string(1 + i % 200) + " srv" + std::to_string(i) + ".example\n"; auto e = std::make_shared<Inode>(); e->dir = true; vfs["/etc"] = e; auto put = [](const char *p, const std::string &d) { auto f = std::make_shared<Inode>(); f->data = d; vfs[p] = f; }; put("/etc/hosts", hosts); put("/etc/resolv.conf", "nameserver 10.9.9.9\nlookup file bind\noptions timeout:1 attempts:1\n"); put("/etc/nsswitch.conf", "hosts: files dns\n");
}
Harness sim::harness = {"fetch", setup, idle, exited};
static void mark() { u64 h = 3; for (auto &t : T) h = mix(h, t.ended ? 99 : t.op + 2); for (auto &f : F) h = mix(h, f->kind * 64 + (f->req_done ? 1 : 0) + (f->replying ? 2 : 0) + (f->ended ? 4 : 0) + (f->result + 1) * 8); state_mark(h); }
extern "C" {
int hx_next(int id) {
    static int calls; if (calls++ == 0) { T[0].op = 4; T[0].arg[0] = 1; return 4; } if (base_bytes < 0) { base_bytes = live_bytes(); base_allocs = live_allocs(); }
    Task &t = T[id]; mark(); if (t.ended || t.op > 0) BAD("task", "task %d continues although it ended or its operation has not returned", id); advance_to(now_ns() + choose(3, "compute") * 7 * US); t.t0 = now_ns(); auto go = [&](int op) { t.op = op; return op; };
    if (id == 0) { if (todo.empty()) { t.arg[9] = never_fd; t.ended = true; return 0; } if (coin(200, "mainsleep")) { t.arg[0] = (i64)range(1, 20, "ms"); return go(4); } t.arg[0] = todo.front(); todo.pop_front(); return go(2); }
    if (t.left-- <= 0) { t.ended = true; return 0; }
    unsigned k = (unsigned)choose(6, "op"); if (k == 4) { t.arg[0] = (i64)range(1, 300, "ms"); return go(4); } if (k == 5) return go(5);
    if (F.size() >= 60) { t.ended = true; return 0; }
    Fetch *f = t.f = new_fetch(id); f->t0 = now_ns(); f->stall0 = stall_total(); f->socks0 = socket_faults; f->files0 = file_errors.size(); t.s[0] = f->url; t.s[2] = f->boundary; t.arg[1] = f->builder; ev("task %d fetches %.100s: %s", id, f->url.c_str(), KIND[f->kind]); return go(1);
}
i64 hx_arg(int id, int k) { return T[id].arg[k]; }
static const std::string &str(int id, int k) { Task &t = T[id]; return k == 4 ? t.f->url : k == 3 ? t.f->steps[t.f->pc - 1].s[3] : t.s[k]; }
const char *hx_str(int id, int k) { return str(id, k).c_str(); }
i64 hx_len(int id, int k) { return (i64)(k == 4 ? T[id].f->url.size() : k == 3 ? T[id].f->steps[T[id].f->pc - 1].s[3].size() : T[id].s[k].size()); }
int hx_step(int id) { Task &t = T[id]; Fetch *f = t.f; if (f->pc >= f->steps.size()) return 0; Step &s = f->steps[f->pc++]; t.s[0] = s.s[0]; t.s[1] = s.s[1]; t.s[3] = s.s[3]; t.arg[0] = s.a; return s.op; }
void hx_ok(int id, i64 status, int ok, const char *body, i64 n) {
    Fetch *f = T[id].f; ev("fetch %d returns status %lld, %lld bytes", f->no, (long long)status, (long long)n); f->result = 1; count("responses"); std::string b(body, n);
    if (f->kind != GOOD && f->kind != LATE) BAD("accepted", "%s returns status %lld and %lld bytes as if it had been answered", WHO(f), (long long)status, (long long)n);
    if (status != f->status) BAD("response", "%s returns status %lld instead of %d", WHO(f), (long long)status, f->status); if ((ok != 0) != (status == 200)) BAD("response", "%s: ok() is %d with status %lld", WHO(f), ok, (long long)status);
    if (b != f->want) { size_t i = 0; while (i < b.size() && i < f->want.size() && b[i] == f->want[i]) i++; BAD("response", "%s returns a body of %zu bytes that differs from the %zu sent at byte %zu", WHO(f), b.size(), f->want.size(), i); }
    if (f->at < f->need) BAD("response", "%s returns before its response was sent", WHO(f));
}
void hx_fail(int id) {
    Fetch *f = T[id].f; ev("fetch %d fails", f->no); f->result = 0; bool dist = disturbed(f);
    if (f->kind == GOOD && !dist) BAD("failed", "%s fails although nothing went wrong (%zu of %zu bytes of the response were sent)", WHO(f), f->at, f->need);
    if (f->kind == LATE || dist || f->kind == SPOILT || f->kind == NOFILE) return;
    u64 st = stall_total() - f->stall0, base = 0; bool silent = (f->kind == CUT && f->how == 3) || f->kind == NOREAD || (f->kind == REQCUT && f->how == 3) || (f->kind == NOCONN && f->conn_mode == 3);
    base = f->kind == NOCONN ? f->t_conn : f->cl ? std::max(f->t_tx, f->cl->last_arrival) : f->t_conn; if (!silent) { if (f->kind == NOCONN) base += f->conn_delay; if (f->kind == CUT && f->how == 3) return; }
    count("failures_judged"); if (!f->t_conn && !(f->kind == NOCONN && f->conn_mode == 1)) BAD("failed", "%s fails without having tried to connect", WHO(f));
    if (silent) { if (now_ns() + 2 * MS < base + 20 * SEC) BAD("early", "%s gives up %.3f ms after the last sign of life, its limit is 20 s", WHO(f), (now_ns() - base) / 1e6); if (now_ns() > base + 20 * SEC + 10 * MS + st) BAD("late", "%s gives up %.3f ms after the last sign of life, its limit is 20 s", WHO(f), (now_ns() - base) / 1e6); }
}
void hx_ret(int id, int op) { Task &t = T[id]; if (op == 1 && t.f->result < 0) BAD("task", "%s returned neither a response nor a failure", WHO(t.f)); t.op = -1; }
}
