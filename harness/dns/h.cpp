// Name resolution (C10): simulated name servers, forgers, networks and hosts files.
#include "sim.h"
#include <cstring>
#include <cerrno>
#include <algorithm>
using namespace sim;

enum Op { END = 0, RESOLVE = 1, SLEEP = 4, YIELD = 5, NEW = 20 };
struct Zone { int kind = 0; /*0 A,1 nxdomain,2 nodata,3 cname inline,4 cname split,5 servfail*/ std::vector<std::string> ips; std::vector<std::string> chain; bool big = false; };
struct Sent { std::string qname; u64 t; int server; unsigned qid; uint16_t port; u64 reply_at = ~0ull; bool reply_good = false, queued = false, checked = false; };
struct Lookup {
    int task; std::string name; std::vector<std::string> cands; std::vector<std::string> hosts_v4, hosts_v6; std::set<std::string> ok; bool active = false, done = false; u64 t0 = 0, stall0 = 0; int mode = 0; uint16_t port = 0;
    bool taint = false; std::vector<Sent> asked; std::set<std::string> names; u64 sock_faults0 = 0; u64 icmp = 0;
    // last genuine reply that reached the program's socket
    std::string acc_name; int acc_kind = -1; u64 acc_t = 0; EpP tcp_ep; size_t tcp_need = 0; std::string tcp_name; int tcp_kind = -1; bool tcp_any = false, tcp_tried = false, alias = false;
};
struct Task { int op = -1; bool ended = false; i64 arg[10] = {0}; std::string str; int left = 0; Lookup *l = nullptr; bool got = false; };
static std::vector<std::unique_ptr<Task>> T; static std::vector<std::unique_ptr<Lookup>> L; static std::map<std::string, std::pair<Lookup *, Zone *>> names; static std::deque<Zone> zones;
static std::vector<Addr> servers; static unsigned timeout_s = 5, attempts = 2, ndots = 1; static std::vector<std::string> search; static bool use_file = true, file_first = false, use_bind = true, tcp_only = false, stepped = false; static u64 back = 0; // how far the wall clock was set back
static unsigned nomem_pm = 0; static bool nomem_late = false; // memory for the resolver runs out, perhaps only after the first round of lookups
static std::deque<int> todo; static int never_fd; static EpP never_peer; static int waves = 1, wave_n = 0, alive = 0; static i64 base_bytes = -1, base_allocs = -1; 
static std::vector<unsigned> qids; static int guesses = 0; static std::string last_reply[4]; static unsigned loss_pm, late_pm, dup_pm, forge_pm, bad_pm, tc_pm, icmp_pm, case_pm; static u64 lat_max; static int dead_servers = 0; static std::string hosts_txt;

// ---- wire format
static void p16(std::string &s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
static void p32(std::string &s, u32 v) { p16(s, v >> 16); p16(s, v & 0xffff); }
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static void pname(std::string &s, const std::string &n) { size_t i = 0; while (i < n.size()) { size_t e = n.find('.', i); if (e == std::string::npos) e = n.size(); s += (char)(e - i); s += n.substr(i, e - i); i = e + 1; } s += '\0'; }
struct Q { unsigned id = 0, flags = 0, type = 0, cls = 0; std::string name; size_t qend = 0; bool ok = false; };
static Q parse_q(const std::string &d) {
    Q q; if (d.size() < 17) return q; auto u = [&](size_t i) { return ((unsigned)(uint8_t)d[i] << 8) | (uint8_t)d[i + 1]; }; q.id = u(0); q.flags = u(2); if (u(4) != 1) return q; size_t i = 12;
    while (i < d.size() && d[i]) { unsigned n = (uint8_t)d[i]; if (n > 63 || i + 1 + n >= d.size()) return q; q.name += d.substr(i + 1, n) + "."; i += n + 1; }
    if (i + 5 > d.size()) return q; i++; q.type = u(i); q.cls = u(i + 2); q.qend = i + 4; q.ok = true; return q;
}
struct RR { std::string name; unsigned type; std::string rd; unsigned cls = 1; };
static std::string ip4(const std::string &s) { Addr a = v4(s.c_str(), 0); return std::string((char *)a.ip, 4); }
static void prr(std::string &s, const RR &r, const std::string &qname, bool compress) { if (compress && lower(r.name) == lower(qname)) p16(s, 0xc00c); else pname(s, r.name); p16(s, r.type); p16(s, r.cls); p32(s, 60); p16(s, (unsigned)r.rd.size()); s += r.rd; }
static std::string reply(unsigned id, const std::string &qname, unsigned qtype, unsigned qcls, unsigned rcode, bool tc, const std::vector<RR> &an, const std::vector<RR> &ns, const std::vector<RR> &ar, bool aa, bool compress) {
    std::string s; p16(s, id); p16(s, 0x8180 | (aa ? 0x400 : 0) | (tc ? 0x200 : 0) | rcode); p16(s, 1); p16(s, (unsigned)an.size()); p16(s, (unsigned)ns.size()); p16(s, (unsigned)ar.size()); pname(s, qname); p16(s, qtype); p16(s, qcls);
    for (auto &r : an) prr(s, r, qname, compress); for (auto &r : ns) prr(s, r, qname, compress); for (auto &r : ar) prr(s, r, qname, compress); return s;
}
static std::string cname_rd(const std::string &n) { std::string s; pname(s, n); return s; }
static std::string POISON = "66.6.6.6";

// What a sound server answers: kind 0 addresses, 1 nothing, 2 alias only
static std::string genuine(const Q &asked, Zone *z, bool tc, int &kind) {
    Q q = asked; if (case_pm && coin(case_pm, "recase")) { for (auto &c : q.name) if (isalpha((unsigned char)c) && choose(2, "flip")) c ^= 0x20; fault("answer_in_other_case"); } // names are equal whatever the case of their letters
    std::vector<RR> an, ns, ar; unsigned rcode = 0; kind = 1; std::string owner = q.name; bool compress = choose(4, "compress") != 0, aa = coin(500, "aa");
    if (!z || z->kind == 1) rcode = 3; else if (z->kind == 5) rcode = 2;
    else if (q.type == 1 && (z->kind == 0 || z->kind == 3 || z->kind == 4)) {
        size_t i = 0; if (z->kind >= 3) { auto it = std::find(z->chain.begin(), z->chain.end(), lower(q.name)); i = it == z->chain.end() ? 0 : it - z->chain.begin(); }
        if (z->kind == 3) for (; i + 1 < z->chain.size(); i++) { an.push_back({i ? z->chain[i] : q.name, 5, cname_rd(z->chain[i + 1])}); owner = z->chain[i + 1]; }
        else if (z->kind == 4 && i + 1 < z->chain.size()) { an.push_back({q.name, 5, cname_rd(z->chain[i + 1])}); kind = 2; owner = ""; }
        if (owner != "") { kind = 0; for (auto &a : z->ips) an.push_back({owner, 1, ip4(a)}); if (z->kind == 3 && coin(300, "shuffle")) std::swap(an[0], an[an.size() - 1]); }
        if (coin(150, "extra_rr")) ar.push_back({"other.invalid.", 1, ip4(POISON)}); if (coin(100, "extra_an")) an.insert(an.begin() + choose(an.size() + 1, "where"), RR{coin(500, "txt") ? q.name : "elsewhere.test.", 16, std::string("\3abc", 4)}); if (coin(80, "other_an")) an.push_back({"elsewhere.test.", 1, ip4(POISON)});
    }
    if (rcode || an.empty()) if (coin(500, "soa")) { std::string rd = cname_rd("ns.test.") + cname_rd("root.test."); for (int i = 0; i < 5; i++) p32(rd, 60); ns.push_back({"test.", 6, rd}); }
    if (tc) { an.resize(std::min<size_t>(an.size(), choose(3, "tc_keep"))); kind = 3; if (coin(300, "tc_long")) { size_t n = range(80, 200, "tc_pad"); an.insert(an.begin(), RR{q.name, 16, std::string(1, (char)n) + std::string(n, 'p')}); if (reply(q.id, q.name, q.type, q.cls, rcode, tc, an, ns, ar, aa, compress).size() > 512) an.erase(an.begin()); } }
    return reply(q.id, q.name, q.type, q.cls, rcode, tc, an, ns, ar, aa, compress);
}
// Something that is not a genuine answer to the query although it comes from the right place
static std::string forged(const Q &q, const std::string &client_last, const char **what) {
    auto poison = [&](const std::string &n) { return std::vector<RR>{{n, 1, ip4(POISON)}}; };
    switch (choose(9, "forge")) {
    case 0: { unsigned id = (q.id + 1 + (unsigned)choose(65534, "id")) & 0xffff; *what = "forged_id"; return reply(id, q.name, q.type, q.cls, 0, false, poison(q.name), {}, {}, true, true); }
    case 1: { std::string n = "other" + std::to_string(choose(9, "n")) + ".test."; *what = "other_question"; return reply(q.id, n, q.type, q.cls, 0, false, poison(coin(500, "own") ? n : q.name), {}, {}, true, false); }
    case 2: *what = "other_type"; return reply(q.id, q.name, 28, q.cls, 0, false, poison(q.name), {}, {}, true, true);
    case 3: *what = "other_class"; return reply(q.id, q.name, q.type, 3, 0, false, poison(q.name), {}, {}, true, true);
    case 4: { *what = "no_question"; std::string s; p16(s, q.id); p16(s, 0x8180); p16(s, 0); p16(s, 1); p16(s, 0); p16(s, 0); prr(s, poison(q.name)[0], "", false); return s; }
    case 5: { *what = "too_short"; std::string s; p16(s, q.id); s += std::string(choose(10, "len"), '\x81'); return s; }
    case 6: *what = "stale"; if (client_last.size() && (((unsigned)(uint8_t)client_last[0] << 8) | (uint8_t)client_last[1]) != q.id) return client_last; *what = "empty"; return "";
    case 7: { std::string n = q.name; n.erase(0, n.find('.') == std::string::npos ? 0 : n.find('.') + 1); if (n == q.name || n.empty()) n = "x." + q.name; *what = "parent_question"; return reply(q.id, n, q.type, q.cls, 0, false, poison(q.name), {}, {}, true, false); }
    default: { std::string n = q.name; n[choose(n.size() - 1, "at")] ^= 1; if (lower(n) == lower(q.name) || n.find("..") != std::string::npos || n[0] == '.' || std::count(n.begin(), n.end(), '.') != std::count(q.name.begin(), q.name.end(), '.')) n = "q" + q.name; *what = "similar_question"; return reply(q.id, n, q.type, q.cls, 0, false, poison(q.name), {}, {}, true, false); }
    }
}
// A reply with the right envelope whose records are damaged
static std::string malformed(const Q &q) {
    std::string s = reply(q.id, q.name, q.type, q.cls, 0, false, {}, {}, {}, true, true); auto cnt = [&](unsigned n) { s[6] = (char)(n >> 8); s[7] = (char)n; };
    switch (choose(9, "damage")) {
    case 0: cnt(1); p16(s, 0xc00c); p16(s, 1); p16(s, 1); p32(s, 60); p16(s, 4); s += std::string("\x42\x06", 2); break; // record data cut short
    case 1: cnt(1); p16(s, 0xc00c); p16(s, 1); p16(s, 1); p32(s, 60); p16(s, 4000); s += ip4(POISON); break;
    case 2: cnt(1 + (unsigned)choose(65000, "count")); break; // counts beyond the data
    case 3: { cnt(1); p16(s, 0xc000 | (unsigned)s.size()); p16(s, 1); p16(s, 1); p32(s, 60); p16(s, 4); s += ip4(POISON); break; } // name that points to itself
    case 4: { cnt(1); p16(s, 0xc00c); p16(s, 5); p16(s, 1); p32(s, 60); p16(s, 2); p16(s, 0xc000 | (unsigned)(s.size())); break; } // alias that points to itself
    case 5: cnt(1); p16(s, 0xc00c); p16(s, 1); p16(s, 1); p32(s, 60); p16(s, (unsigned)choose(4, "rdlen")); s += std::string(3, '\x42'); break; // address too short
    case 6: cnt(2); p16(s, 0xc00c); p16(s, 5); p16(s, 1); p32(s, 60); { std::string r = cname_rd(q.name); p16(s, (unsigned)r.size()); s += r; } p16(s, 0xffff); break; // alias of itself, then rubbish
    case 7: s = s.substr(0, 12 + choose(s.size() - 12, "cut")); break;
    default: { cnt(1); s += std::string(1 + choose(40, "n"), (char)choose(256, "junk")); break; }
    }
    return s;
}
static Lookup *lookup_of(const std::string &n, Zone **z) { auto it = names.find(lower(n)); if (it == names.end()) return nullptr; *z = it->second.second; return it->second.first; }
static void accept_reply(Lookup *l, const std::string &name, int kind) { if (!l->active) return; l->acc_name = lower(name); l->acc_kind = kind; l->acc_t = now_ns(); if (kind == 2) l->alias = true; count(kind == 0 ? "replies_with_address" : kind == 2 ? "replies_with_alias" : kind == 3 ? "replies_truncated" : "replies_negative"); }

static void guess(unsigned id) { // what somebody who cannot see the query could try
    bool hit = id <= 2 || id == 0xffff; if (qids.size() && (id == qids.back() || id == ((qids.back() + 1) & 0xffff) || id == ((qids.back() - 1) & 0xffff))) hit = true;
    if (hit && ++guesses >= 3) violate("C10:guessable", "the identifiers of %d of the last %zu queries follow from the one before: anybody can forge an answer", guesses, qids.size() + 1); qids.push_back(id);
}
static u64 sent_n = 0;
// Every query the program sends, whether or not it gets through
static void on_sent(const Addr &from, const Addr &to, const std::string &d) {
    int srv = -1; for (size_t i = 0; i < servers.size(); i++) if (servers[i].str() == to.str()) srv = (int)i;
    if (srv < 0) violate("C10:wrong-query", "the program sends a datagram to %s, which is not a configured server", to.str().c_str());
    Q q = parse_q(d); if (!q.ok) violate("C10:bad-query", "the program sent server %d a query of %zu bytes that is not well formed", srv, d.size());
    Zone *z = nullptr; Lookup *l = lookup_of(q.name, &z); if (!l) violate("C10:wrong-query", "the program asks server %d for %s, which nobody looks up", srv, q.name.c_str());
    if (!l->active) violate("C10:wrong-query", "the program asks for %s although nobody looks it up now", q.name.c_str());
    if ((q.type != 1 && q.type != 28) || q.cls != 1) violate("C10:bad-query", "the program asks server %d for records of type %u class %u of %s: it looks up addresses", srv, q.type, q.cls, q.name.c_str());
    count("queries"); sent_n++; if (l->asked.empty() || l->asked.back().qname != lower(q.name)) guess(q.id); l->asked.push_back({lower(q.name), now_ns(), srv, q.id, from.port});
}
static void on_query(int srv, const Addr &from, const std::string &d) {
    Q q = parse_q(d); Zone *z = nullptr; Lookup *l = lookup_of(q.name, &z); ev("server %d is asked for %s type %u, id %u", srv, q.name.c_str(), q.type, q.id);
    size_t idx = l->asked.size(); while (idx-- > 0) if (l->asked[idx].qid == q.id && l->asked[idx].server == srv && l->asked[idx].port == from.port) break; if (idx == (size_t)-1) return;
    if (srv < dead_servers) { fault("server_dead"); return; }
    std::string &last = last_reply[srv];
    if (coin(loss_pm, "lost")) { fault("answer_lost"); return; }
    if (coin(icmp_pm, "icmp")) { fault("port_unreachable"); l->icmp++; udp_icmp_refused(from, servers[srv]); return; }
    u64 delay = range(50, lat_max, "delay") * US; if (coin(late_pm, "late")) { delay = range(1, 9000, "late_ms") * MS; fault("answer_late"); }
    if (coin(forge_pm, "forge?")) for (int k = 1 + (int)choose(4, "forges"); k > 0; k--) {
        const char *what; std::string f = forged(q, last, &what); u64 fd = delay > 2 * MS ? range(1, delay / US - 1, "forge_at") * US : choose(delay, "forge_at"); if (coin(200, "after")) fd += delay;
        if (coin(250, "spoofed")) { Addr a = servers[srv]; if (coin(500, "which")) a.ip[3] ^= 0x40; else a.port = 5353; fault("answer_from_elsewhere"); int kk; (void)kk; f = reply(q.id, q.name, q.type, q.cls, 0, false, {{q.name, 1, ip4(POISON)}}, {}, {}, true, true); udp_deliver(from, a, f, fd); }
        else { fault(what); udp_deliver(from, servers[srv], f, fd); }
    }
    if (coin(bad_pm, "malformed")) { fault("answer_malformed"); l->taint = true; udp_deliver(from, servers[srv], malformed(q), delay); return; }
    bool tc = z && z->big ? true : coin(tc_pm, "tc"); int kind; std::string r = genuine(q, z, tc, kind); if (r.size() > 512) r = genuine(q, z, tc = true, kind); std::string nm = q.name; if (z && z->kind == 5) l->taint = true;
    last = r; bool good = kind == 0; l->asked[idx].reply_at = now_ns() + delay; l->asked[idx].reply_good = good && !tc;
    auto done = [l, nm, kind, idx](bool queued) { if (queued) { l->asked[idx].queued = true; if (l->asked[idx].qid == l->asked.back().qid && l->asked[idx].qname == l->asked.back().qname) accept_reply(l, nm, kind); } };
    udp_deliver(from, servers[srv], r, delay, done); if (coin(dup_pm, "dup")) { fault("answer_duplicated"); udp_deliver(from, servers[srv], r, delay + range(1, 400000, "dup_delay") * US, done); }
}
// TCP: one connection of the program to a server
// the rest of a query has to follow its beginning
static void half(std::weak_ptr<Endpoint> we, std::shared_ptr<std::string> buf, u64 nq) { // nq: questions sent when the connection was made or last completed one; more mean that this one may have been given up
    size_t had = buf->size(); if (!had) return; if (had >= 2 && had >= 2 + ((size_t)(uint8_t)(*buf)[0] << 8 | (uint8_t)(*buf)[1])) return; u64 st = stall_total(), sf = socket_faults;
    after(800 * MS, [we, buf, had, st, sf, nq] { auto e = we.lock(); if (!e || e->closed || e->was_rst || e->rx_eof || stall_total() != st || socket_faults != sf || sent_n != nq || stepped) return; if (e->peer.lock() && e->peer.lock()->closed) return; if (buf->size() == had && e->rx.empty()) violate("C10:bad-query", "the program sent the first %zu bytes of a query over TCP and not the rest", had); });
}
static void tcp_serve(int srv, EpP e) {
    auto buf = std::make_shared<std::string>(); auto out = std::make_shared<size_t>(0); auto nq = std::make_shared<u64>(++sent_n); count("tcp_queries"); int mode = (int)choose(14, "tcp_mode"); std::weak_ptr<Endpoint> we = e;
    e->on_event = [we, srv, buf, out, nq, mode] {
        auto e = we.lock(); if (!e || e->closed || e->was_rst) return; *buf += e->take(); half(we, buf, *nq); if (buf->size() < 2) return; size_t n = ((uint8_t)(*buf)[0] << 8) | (uint8_t)(*buf)[1]; if (buf->size() < n + 2) return;
        Q q = parse_q(buf->substr(2, n)); *buf = buf->substr(n + 2); if (!q.ok) violate("C10:bad-query", "the program sent server %d a query over TCP that is not well formed", srv);
        Zone *z = nullptr; Lookup *l = lookup_of(q.name, &z); if (!l) violate("C10:wrong-query", "the program asks server %d over TCP for %s, which nobody looks up", srv, q.name.c_str());
        ev("server %d is asked over TCP for %s", srv, q.name.c_str()); l->asked.push_back({lower(q.name), now_ns(), srv, q.id, 0}); l->tcp_any = true; l->tcp_ep = nullptr; *nq = ++sent_n; int kind; std::string r = genuine(q, z, false, kind); if (z && z->kind == 5) l->taint = true; if (kind == 2) l->alias = true;
        if (mode == 1 || mode == 2) { l->taint = true; const char *what; if (mode == 1) { r = forged(q, "", &what); fault("tcp_forged"); } else { r = malformed(q); fault("tcp_malformed"); } }
        std::string s; p16(s, (unsigned)r.size()); s += r; u64 d = range(10, lat_max, "tcp_delay") * US;
        if (mode == 3) { fault("tcp_cut"); s.resize(choose(s.size(), "cut")); after(d, [we, s] { auto e = we.lock(); if (e && !e->closed) { e->send(s); e->close_(); } }); return; }
        if (mode == 4) { fault("tcp_reset"); after(d, [we] { auto e = we.lock(); if (e && !e->closed) e->reset(); }); return; }
        if (mode == 5) { fault("tcp_silent"); return; }
        if (mode == 6) { l->taint = true; fault("tcp_bad_length"); s[0] = (char)choose(256, "len0"); s[1] = (char)choose(256, "len1"); }
        if (mode == 7) { fault("tcp_late"); d = range(1, 9000, "tcp_late_ms") * MS; }
        auto prog = e->peer.lock(); *out += s.size(); if (!l->taint && prog) { l->tcp_ep = prog; l->tcp_need = *out; l->tcp_name = lower(q.name); l->tcp_kind = kind; }
        if (mode == 8) { fault("tcp_paused"); std::string a = s.substr(0, choose(s.size(), "pause_at")); s = s.substr(a.size()); after(d, [we, a] { auto e = we.lock(); if (e && !e->closed && !e->was_rst && a.size()) e->send(a); }); d += range(1, 9000, "pause_ms") * MS; }
        after(d, [we, s] { auto e = we.lock(); if (e && !e->closed && !e->was_rst) e->send(s); });
    };
}

// ---- judging
static u64 bound(const Lookup &l) { size_t q = l.names.size() + 2; return q * attempts * servers.size() * (timeout_s + 2) * SEC + q * 2 * SEC + back + (stall_total() - l.stall0); }
static std::string who(const Lookup &l) { return "looking up " + l.name; }
static void judge_failure(Lookup &l) {
    bool faulted = socket_faults != l.sock_faults0; if (faulted) { count("lookups_failed_by_fault"); return; }
    if (use_file && l.hosts_v4.size() && l.mode != 2 && !l.taint && (file_first || !l.alias)) violate("C10:hosts", "%s failed although the hosts file has its address", who(l).c_str());
    if (l.taint || l.mode == 2 || stepped || !use_bind) { count("lookups_failed_tainted"); return; }
    count("lookups_failed");
    std::string lastq = l.asked.empty() ? "" : l.asked.back().qname; u64 lastt = l.asked.empty() ? 0 : l.asked.back().t;
    if (l.tcp_ep && l.tcp_name == lastq && l.tcp_ep->recv_total >= l.tcp_need && (l.tcp_kind == 0 || l.tcp_kind == 2)) violate("C10:ignored", "%s failed although it had read the complete answer for %s over TCP", who(l).c_str(), lastq.c_str());
    if (l.acc_kind >= 0 && l.acc_name == lastq && l.acc_t >= l.t0) {
        u64 ago = now_ns() - l.acc_t, slack = 150 * MS + stall_total() - l.stall0; bool nat = now_ns() - lastt + 1500 * MS + (stall_total() - l.stall0) >= timeout_s * SEC;
        if ((l.acc_kind == 0 || l.acc_kind == 2) && !l.tcp_tried && (ago > slack || !nat)) violate("C10:ignored", "%s failed %.3f ms after a genuine answer for %s had arrived", who(l).c_str(), ago / 1e6, lastq.c_str());
        if (l.acc_kind == 3 && !nat && !l.tcp_any && !l.tcp_tried) violate("C10:truncated", "%s failed after a truncated answer without asking over TCP for its full length", who(l).c_str());
        if (l.acc_kind == 1 && !l.tcp_tried && (ago > slack || !nat)) { // a negative answer: every other name of the search list must have been asked too
            for (auto &c : l.cands) if (std::none_of(l.asked.begin(), l.asked.end(), [&](Sent &s) { return s.qname == c; })) violate("C10:search", "%s failed after a negative answer for %s without asking for %s", who(l).c_str(), lastq.c_str(), c.c_str());
        }
    }
    // no answer to the last question: every server must have been asked it as often as configured, for as long as configured (the names of the search list share the attempts)
    bool by_tcp = l.tcp_ep && l.tcp_name == lastq && l.tcp_ep->recv_total >= l.tcp_need; bool cut = l.tcp_any || l.tcp_tried;
    if ((l.acc_name != lastq || (l.acc_kind == 3 && cut)) && !by_tcp && !tcp_only && l.asked.size()) {
        auto is_cand = [&](const std::string &n) { return std::count(l.cands.begin(), l.cands.end(), n) > 0; }; bool top = is_cand(lastq); std::vector<unsigned> per(servers.size(), 0); u64 first = 0;
        for (auto &s : l.asked) if (s.qname == lastq || (top && is_cand(s.qname))) { per[s.server]++; if (!first) first = s.t; }
        bool spent = timeout_s == 1 && stall_total() - l.stall0; // whole seconds: a stall between reading the clock and sending can use up a question's one second
        for (size_t i = 0; i < per.size(); i++) if (per[i] < attempts && !spent) violate("C10:gave-up", "%s failed without an answer for %s, but server %zu was asked only %u times of %u", who(l).c_str(), lastq.c_str(), i, per[i], attempts);
        u64 last_first = 0, n_last = 0; for (auto &s : l.asked) if (s.qname == lastq) { if (!last_first) last_first = s.t; n_last++; }
        if (!l.icmp && !cut && now_ns() - last_first + n_last * SEC + SEC < n_last * timeout_s * SEC) violate("C10:gave-up", "%s gave up %.3f s after its first of %llu questions for %s, each of which has %u s", who(l).c_str(), (now_ns() - last_first) / 1e9, (unsigned long long)n_last, lastq.c_str(), timeout_s);
    }
    if (!cut) for (auto &s : l.asked) if (s.reply_good && !s.queued && s.reply_at < s.t + (timeout_s - 1) * SEC && s.reply_at + MS < now_ns() && !(stall_total() - l.stall0)) violate("C10:impatient", "%s failed; the answer for %s came %.3f ms after the question but was not waited for (timeout %u s)", who(l).c_str(), s.qname.c_str(), (s.reply_at - s.t) / 1e6, timeout_s);
}
static void check_fds(const char *when) {
    int active = 0; for (auto &l : L) active += l->active; int udp = 0, tcp = 0; for (auto &f : list_fds()) { if (!strcmp(f.kind, "udp")) udp++; else if (f.fd != never_fd && strcmp(f.kind, "pipe-r")) tcp++; }
    if (udp > active) violate("C10:leak-fd", "%d resolver sockets are open %s although %d lookups are in progress (%s)", udp, when, active, describe_fds().c_str());
    if (!active && tcp) violate("C10:leak-fd", "%d descriptors are left open %s although no lookup is in progress (%s)", tcp, when, describe_fds().c_str());
}
static void blocked() { if (longest_block_ns() > 0) violate("C10:blocks", "a lookup kept the whole program from running for %.3f ms", longest_block_ns() / 1e6); }
static void overdue() { for (auto &l : L) if (l->active && now_ns() > l->t0 + bound(*l)) violate("C10:endless", "%s has taken %.1f s and is still going on (%zu queries; %u attempts, %zu servers, %u s each)", who(*l).c_str(), (now_ns() - l->t0) / 1e9, l->asked.size(), attempts, servers.size(), timeout_s); }
static void blocking(u64 deadline) { blocked(); check_fds("while the program waits"); for (auto &l : L) if (l->active && deadline == ~0ull && !events_pending()) violate("C10:hang", "%s never ends (%zu queries sent)", who(*l).c_str(), l->asked.size()); overdue(); }

static std::string rnd_label(int maxlen) { std::string s; int n = (int)range(1, maxlen, "label"); for (int i = 0; i < n; i++) s += (char)('a' + choose(26, "ch")); return s; }
static std::string vary(const std::string &n) { std::string s = n; if (coin(150, "case")) for (auto &c : s) if (coin(400, "up")) c = (char)toupper((unsigned char)c); return s; }
static Zone *new_zone(Lookup *l, const std::string &fq, int kind) {
    zones.emplace_back(); Zone *z = &zones.back(); z->kind = kind; int n = coin(60, "many") ? (int)range(5, 60, "naddr") : (int)range(1, 4, "naddr"); int id = (int)zones.size();
    if (kind == 0 || kind >= 3 && kind <= 4) for (int i = 0; i < n; i++) { std::string a = "20." + std::to_string(id / 200) + "." + std::to_string(id % 200) + "." + std::to_string(i + 1); z->ips.push_back(a); l->ok.insert(a); }
    z->big = n > 30 || coin(80, "bigz"); names[lower(fq)] = {l, z}; l->names.insert(lower(fq));
    if (kind == 3 || kind == 4) { z->chain.push_back(lower(fq)); int k = (int)range(1, 3, "chain"); for (int i = 0; i < k; i++) { std::string t = "alias" + std::to_string(id) + "-" + std::to_string(i) + "." + rnd_label(12) + ".test."; z->chain.push_back(t); names[t] = {l, z}; l->names.insert(t); } }
    return z;
}
static Lookup *new_lookup(int task) {
    L.emplace_back(new Lookup); Lookup *l = L.back().get(); l->task = task; int id = (int)L.size(); std::string base = "h" + std::to_string(id) + "x" + rnd_label(coin(100, "longlabel") ? 50 : 8); int dots = (int)choose(4, "dots"); for (int i = 0; i < dots; i++) base += "." + rnd_label(coin(80, "longlabel") ? 60 : 10); if (dots && coin(200, "anchored")) base += ".";
    l->name = base; std::string fq = base; if (fq.back() != '.') fq += "."; int nd = (int)std::count(base.begin(), base.end(), '.');
    if (nd >= (int)ndots) l->cands.push_back(lower(fq)); for (auto &s : search) l->cands.push_back(lower(fq + s)); if (nd < (int)ndots) l->cands.push_back(lower(fq));
    for (auto &c : l->cands) { int k = (int)choose(10, "zone"); Zone *z; if (k < 4) z = new_zone(l, c, 0); else if (k < 6) z = new_zone(l, c, 3); else if (k < 8) z = new_zone(l, c, 4); else if (k == 8) z = new_zone(l, c, 1); else z = new_zone(l, c, choose(4, "neg") ? 2 : 5); (void)z; }
    if (coin(200, "in_hosts")) { int n = (int)range(1, 2, "nh"); for (int i = 0; i < n; i++) { bool v6 = coin(150, "h6"); std::string a = v6 ? "fd00::" + std::to_string(id) : "30.0." + std::to_string(id) + "." + std::to_string(i + 1); std::string ln = a + (coin(300, "tab") ? "\t\t" : " "); std::string hn = base; if (hn.back() == '.') hn.pop_back(); bool alias = coin(300, "alias"); ln += alias ? "canon" + std::to_string(id) + " " + vary(hn) : vary(hn); if (coin(200, "cmt")) ln += " # comment " + hn; hosts_txt += ln + "\n"; if (v6) l->hosts_v6.push_back(a); else l->hosts_v4.push_back(a); if (use_file) l->ok.insert(a); } }
    return l;
}
static std::map<int, std::deque<Lookup *>> per_task;
static void file(const char *path, const std::string &d) { auto f = std::make_shared<Inode>(); f->data = d; vfs[path] = f; }
static void setup() {
    max_calls = 300000; on_udp_send = on_sent; on_block = blocking; livelock_class = "C10:livelock";
    if (coin(150, "stalls")) { sysf.stall_permille = (unsigned)range(1, 15, "stall_pm"); sysf.stall_max = range(1, 30, "stall_max") * MS; }
    if (coin(80, "watchfail")) sysf.epoll_ctl_fail_permille = (unsigned)range(5, 100, "watch_pm");
    if (coin(150, "eintr")) sysf.epoll_eintr_permille = (unsigned)range(20, 200, "eintr_pm");
    if (coin(100, "nomem")) nomem_pm = (unsigned)range(5, 200, "nomem_pm"); nomem_late = coin(500, "nomem_late"); if (!nomem_late) sysf.native_alloc_fail_permille = nomem_pm;
    if (coin(80, "sockfail")) sysf.socket_fail_permille = (unsigned)range(30, 400, "sock_pm"); if (coin(60, "fdlimit")) sysf.fd_limit = (int)range(6, 12, "fd_limit");
    int ns = (int)range(1, 3, "servers"); for (int i = 0; i < ns; i++) servers.push_back(v4(("10.0.0." + std::to_string(53 + i)).c_str(), 53));
    timeout_s = coin(500, "tmo") ? 5 : (unsigned)range(1, 6, "timeout"); attempts = coin(500, "att") ? 2 : (unsigned)range(1, 4, "attempts"); ndots = (unsigned)range(1, 3, "ndots"); int nsd = (int)choose(3, "nsearch"); static const char *sd[] = {"corp.example.", "lan.", "a.very.deep.domain.example."}; for (int i = 0; i < nsd; i++) search.push_back(sd[i]);
    bool quiet = coin(300, "quiet"); auto pm = [&](const char *t, int prob, int lo, int hi) { return quiet || !coin(prob, t) ? 0u : (unsigned)range(lo, hi, t); };
    loss_pm = pm("loss", 500, 50, 1000); late_pm = pm("latep", 300, 50, 600); dup_pm = pm("dupp", 300, 50, 500); forge_pm = pm("forgep", 500, 100, 900); bad_pm = pm("badp", 200, 50, 600); tc_pm = pm("tcp", 300, 50, 1000); icmp_pm = pm("icmpp", 100, 50, 500); case_pm = pm("casep", 150, 50, 1000); lat_max = coin(300, "slownet") ? 900000 : 5000; if (!quiet && coin(250, "dead")) dead_servers = (int)range(1, ns, "ndead");
    tcp_only = coin(80, "tcponly"); if (!quiet && coin(200, "txloss")) { unsigned p = (unsigned)range(50, 700, "txloss_pm"); udp_tx_fate = [p]() -> u64 { return coin(p, "tx") ? ~0ull : range(20, 3000, "tx_delay") * US; }; }
    std::string rc = coin(200, "rc_comment") ? "# generated\n; too\n" : ""; for (int i = 0; i < ns; i++) rc += std::string("nameserver") + (coin(200, "tab") ? "\t" : " ") + "10.0.0." + std::to_string(53 + i) + "\n";
    if (nsd) { rc += "search"; for (auto &s : search) { std::string x = s; x.pop_back(); rc += " " + x; } rc += "\n"; } rc += "options ndots:" + std::to_string(ndots) + " timeout:" + std::to_string(timeout_s) + " attempts:" + std::to_string(attempts) + (coin(200, "rotate") ? " rotate" : "") + (tcp_only ? " tcp" : "") + "\n"; file("/etc/resolv.conf", rc);
    switch (choose(6, "nss")) { case 0: break; case 1: file("/etc/nsswitch.conf", "hosts: files dns\n"); file_first = true; break; case 2: file("/etc/nsswitch.conf", "passwd: files\nhosts:\tfiles dns\nnetworks: files\n"); file_first = true; break; case 3: file("/etc/nsswitch.conf", "hosts: dns\n"); use_file = false; break; case 4: file("/etc/nsswitch.conf", "hosts: files\n"); file_first = true; use_bind = false; break; default: file("/etc/nsswitch.conf", "hosts: dns files\n"); }
    for (size_t i = 0; i < servers.size(); i++) { int k = (int)i; actor_udp(servers[i], [k](const Addr &from, const std::string &d) { on_query(k, from, d); });
        int pol = quiet ? 0 : (int)choose(8, "tcp_pol"); actor_listen(servers[i], [k](EpP e) { tcp_serve(k, e); }, [pol] { sent_n++; for (auto &l : L) if (l->active) l->tcp_tried = true; ConnectPolicy p; p.mode = pol == 1 ? 1 : pol == 2 ? 3 : pol == 3 ? 4 : 0; if (p.mode) { fault("tcp_connect_fault"); } p.delay = range(10, 5000, "tcp_con") * US; return p; }); }
    default_profile.seg_mode = choose(4, "seg"); default_profile.lat_max = range(20, 3000, "lat") * US; if (coin(200, "shorts")) default_profile.short_permille = (unsigned)range(50, 600, "short_pm"); if (coin(150, "eagains")) default_profile.eagain_permille = (unsigned)range(20, 300, "eagain_pm"); default_rcvcap = coin(150, "narrow") ? range(1, 40, "rcvcap") : 65536;
    T.emplace_back(new Task); never_fd = sut_pipe_read_fd(&never_peer, 16); watch_always = never_fd; hosts_txt = "127.0.0.1 localhost\n::1 localhost ip6-localhost\n# a comment line\n\n";
    waves = (int)range(1, 3, "waves"); wave_n = (int)range(1, 5, "tasks"); for (int w = 0; w < waves; w++) for (int i = 0; i < wave_n; i++) { T.emplace_back(new Task); int id = (int)T.size() - 1, n = (int)range(1, 3, "lookups"); for (int k = 0; k < n; k++) per_task[id].push_back(new_lookup(id)); T[id]->left = n + (int)choose(3, "idle_ops"); }
    file("/etc/hosts", hosts_txt); if (coin(60, "wallstep")) { int n = (int)range(1, 3, "steps"); for (int i = 0; i < n; i++) after(range(1, 20000, "step_at") * MS, [] { i64 d = (i64)range(1, 600000, "step"); if (coin(500, "back")) d = -d, back += -d * MS; fault("wall_step"); stepped = true; step_wall(d * (i64)MS); }); }
}
static int next_wave_task = 1;
static void idle() { for (auto &l : L) if (l->active) violate("C10:hang", "%s never ends (%zu queries sent)", who(*l).c_str(), l->asked.size()); for (size_t i = 1; i < T.size(); i++) if (!T[i]->ended) violate("C10:hang", "task %zu never continues after its lookup", i); check_fds("at the end"); count("runs_completed"); finish(); }
static void exited(int) { violate("C10:exit", "the program ended although its main task waits for ever: %s", last_stderr.substr(0, 200).c_str()); }
Harness sim::harness = {"dns", setup, idle, exited};
static void mark() { u64 h = 1; for (auto &t : T) h = mix(h, t->ended ? 99 : t->op + 2); for (auto &l : L) if (l->active) h = mix(h, l->asked.size() * 8 + l->acc_kind + 1); state_mark(h); }

extern "C" {
int hx_next(int id) {
    Task &t = *T[id]; blocked(); mark(); overdue(); if (t.ended || t.op > 0) violate("C10:task", "task %d continues although it ended or its operation has not returned", id);
    advance_to(now_ns() + choose(3, "compute") * 7 * US);
    if (id == 0) {
        bool more = next_wave_task < (int)T.size(), first = (next_wave_task - 1) % wave_n == 0;
        if (alive > 0 && (!more || first)) { t.arg[0] = 500; t.op = SLEEP; return SLEEP; } // until everything of the wave has ended
        if (first && next_wave_task > 1) {
            if (base_bytes < 0) { base_bytes = live_bytes(); base_allocs = live_allocs(); sysf.native_alloc_fail_permille = nomem_pm; }
            else if (!(nomem_pm && !nomem_late) && live_bytes() > base_bytes + 2048) violate("C10:leak", "after another round of the same number of lookups %lld bytes more are in use (%lld objects)", (long long)(live_bytes() - base_bytes), (long long)(live_allocs() - base_allocs));
        }
        if (more) { t.arg[0] = next_wave_task++; alive++; t.op = NEW; return NEW; }
        t.arg[9] = never_fd; t.ended = true; return 0;
    }
    if (t.left-- <= 0 && per_task[id].empty()) { t.op = END; return 0; }
    if (!per_task[id].empty() && (t.left < (int)per_task[id].size() || coin(600, "now"))) {
        Lookup *l = per_task[id].front(); per_task[id].pop_front(); t.l = l; l->active = true; l->t0 = now_ns(); l->stall0 = stall_total(); l->sock_faults0 = socket_faults; l->port = (uint16_t)range(1, 65535, "port"); l->mode = coin(100, "v6mode") ? 2 : coin(200, "v4mode") ? 1 : 0; t.str = vary(l->name); t.arg[0] = l->port; t.arg[1] = l->mode; t.got = false; ev("task %d looks up %s", id, t.str.c_str()); count("lookups"); t.op = RESOLVE; return RESOLVE;
    }
    if (coin(500, "sleep")) { t.arg[0] = (i64)range(1, 300, "ms"); t.op = SLEEP; return SLEEP; } t.op = YIELD; return YIELD;
}
i64 hx_arg(int id, int k) { return T[id]->arg[k]; }
const char *hx_str(int id) { return T[id]->str.c_str(); }
void hx_addr(int id, const void *sa) {
    Task &t = *T[id]; Lookup &l = *t.l; l.active = false; l.done = true; t.got = true;
    int fam = *(const uint16_t *)sa; blocked(); check_fds("after a lookup");
    if (fam == 0) { ev("task %d: no address for %s", id, l.name.c_str()); judge_failure(l); return; }
    Addr a = addr_of(sa); std::string s = a.str(); std::string ip = s.substr(0, s.rfind(':')); ev("task %d: %s is %s", id, l.name.c_str(), s.c_str());
    if (ip.size() && ip[0] == '[') ip = ip.substr(1, ip.size() - 2);
    if (!l.ok.count(ip)) violate("C10:not-genuine", "%s gave %s, which neither the hosts file nor a genuine answer to that query has", who(l).c_str(), ip.c_str());
    if (a.port != l.port) violate("C10:port", "%s for port %u gave port %u", who(l).c_str(), l.port, a.port);
    if (l.mode == 1 && a.family != 2 || l.mode == 2 && a.family != 10) violate("C10:family", "%s gave an address of the wrong family", who(l).c_str());
    bool hosts = std::count(l.hosts_v4.begin(), l.hosts_v4.end(), ip) || std::count(l.hosts_v6.begin(), l.hosts_v6.end(), ip);
    if (!hosts && l.acc_kind < 0 && !l.tcp_any) violate("C10:not-genuine", "%s gave %s although no answer had arrived", who(l).c_str(), ip.c_str());
    count(hosts ? "lookups_from_hosts" : l.tcp_any ? "lookups_by_tcp" : "lookups_answered");
}
void hx_ret(int id, int op) { Task &t = *T[id]; blocked(); if (id == 0) { t.op = -1; return; } if (t.op != op) violate("C10:task", "task %d reports operation %d but was doing %d", id, op, t.op); t.op = -1; if (op == END) { t.ended = true; alive--; } }
}
