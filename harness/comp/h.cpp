// The compiler under simulation. Every build of a program happens in a process of its own forked from the run, with the
// compiler's memory, files, child processes and clock simulated; what it leaves behind lives in shared memory, so a
// killed build leaves exactly what it had written. The run decides a build's layout and faults before it starts.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <execinfo.h>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <alloca.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <algorithm>
#include "gen.h"
using namespace sim;
namespace sim { SysFaults sysf; void os_init() {} std::function<void(u64)> on_block; }
using std::string;

// ---------------------------------------------------------------- what survives a build: files and the observations
constexpr int NF = 24; constexpr size_t FCAP = 4u << 20, OUTCAP = 1u << 18;
struct VFile { char path[240]; bool used, dir; size_t len; };
struct Obs {
    u64 nops, nallocs; bool exited; int code;           // exit() reached with code
    u64 cmdhash; bool native_ran; bool native_ok; int tests_ran; u64 native_src; size_t native_len;
    char fired[12][64]; int nfired; u64 ophist[16]; int tests_ok;
};
struct Sh { VFile f[NF]; Obs o; struct { u64 key; size_t n; char d[16384]; int status; } pop[4]; int npop; char data[NF][FCAP]; };
static Sh *S;
// undisturbed builds this worker has already done: they are the same every time they run, so once is enough
struct Kept { bool valid; u64 key; int sig, code; bool exited; u64 cmd, src, bin, outh, native_src; bool have_src, have_bin, native_ran, native_ok; int tests; u64 nops, nallocs, ophist[16]; size_t text, ntext, source, nsource; };
constexpr int NK = 400; constexpr size_t KCAP = 768u << 20; struct KeptSh { Kept k[NK]; int n; size_t used; char d[KCAP]; }; static KeptSh *K;
struct Res { int sig = 0, code = 0; bool exited = false; u64 cmd = 0, src = 0, bin = 0, outh = 0, native_src = 0; bool have_src = false, have_bin = false, native_ran = false, native_ok = false; int tests = 0, tests_ok = 0; string text, source; u64 nops = 0, nallocs = 0, ophist[16] = {0}; };
static u64 hstr(const char *p, size_t n) { u64 h = 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 0x100000001b3ull; return mix(h, n); }

static string CWD = "/work";
static string norm(const char *p) {
    string s = p[0] == '/' ? p : CWD + "/" + p, o; std::vector<string> parts; size_t i = 0;
    while (i < s.size()) { size_t e = s.find('/', i); if (e == string::npos) e = s.size(); string c = s.substr(i, e - i); if (c == "..") { if (!parts.empty()) parts.pop_back(); } else if (!c.empty() && c != ".") parts.push_back(c); i = e + 1; }
    for (auto &c : parts) o += "/" + c; return o.empty() ? "/" : o;
}
static bool virt(const string &p) { return p == CWD || p.compare(0, CWD.size() + 1, CWD + "/") == 0; }
static int vfind(const string &p) { for (int i = 0; i < NF; i++) if (S->f[i].used && p == S->f[i].path) return i; return -1; }
static int vnew(const string &p, bool dir) { for (int i = 0; i < NF; i++) if (!S->f[i].used) { S->f[i].used = true; S->f[i].dir = dir; S->f[i].len = 0; snprintf(S->f[i].path, sizeof S->f[i].path, "%s", p.c_str()); return i; } return -1; }
static void vput(const string &p, const string &d) { int i = vfind(p); if (i < 0) i = vnew(p, false); S->f[i].len = std::min(d.size(), FCAP); memcpy(S->data[i], d.data(), S->f[i].len); }
static bool parent_ok(const string &p) { string d = p.substr(0, p.rfind('/')); int i = vfind(d); return d == CWD || (i >= 0 && S->f[i].dir); }

// ---------------------------------------------------------------- a build's plan
struct Fault { int where; /*0 op, 1 allocation, 2 written byte, 3 read byte of one file, 4 op of one kind (file)*/ u64 index; u64 what; u64 file; bool sticky; };
struct Plan { int fill = 0, arenas = 1, gap = 0, reuse = 0, stackpad = 0, heapnoise = 0, tight = 0; u64 layout = 0; std::vector<Fault> faults; i64 t0 = 1700000000; };
static Plan P; static bool in_build = false;
static u64 lrng_s; static u64 lrng() { u64 z = (lrng_s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void fired(const char *f, const char *detail = "") { Obs &o = S->o; if (o.nfired < 12) snprintf(o.fired[o.nfired++], 64, "%s %s", f, detail); }

// ---------------------------------------------------------------- memory
struct Arena { char *base, *cur, *end; };
static Arena AR[4]; static int nar = 0; struct Hdr { u64 size, magic; u32 cls, pad; u64 cap; };
static std::vector<char *> *freel;   // by size class
static int cls_of(size_t n) { int c = 0; size_t s = 32; while (s < n && c < 40) { s *= 2; c++; } return c; }
static void arenas_init() {
    lrng_s = P.layout * 0x2545F4914F6CDD1Dull + 77;
    freel = new std::vector<char *>[48];
    for (nar = 0; nar < P.arenas; nar++) {
        void *want = P.layout ? (void *)((lrng() % 0x3000 + 0x1000) << 32 | (lrng() & 0xfffff000)) : (void *)0x200000000000ull;
        size_t sz = 16ull << 30; void *p = mmap(want, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        AR[nar] = {(char *)p, (char *)p, (char *)p + sz};
    }
}
static bool ours(void *p) { for (int i = 0; i < nar; i++) if ((char *)p >= AR[i].base && (char *)p < AR[i].end) return true; return false; }
static void fill(char *p, size_t n) {
    switch (P.fill) { case 0: break; case 1: memset(p, 0xff, n); break; case 2: memset(p, 0xa5, n); break; case 3: memset(p, 1, n); break;
    case 4: for (size_t i = 0; i + 8 <= n; i += 8) { u64 v = lrng(); memcpy(p + i, &v, 8); } break;
    case 5: for (size_t i = 0; i + 8 <= n; i += 8) { u64 v = (u64)AR[0].base + (lrng() & 0xfff0); memcpy(p + i, &v, 8); } break; } // looks like pointers
}
static bool alloc_fails() {
    u64 n = ++S->o.nallocs;
    for (auto &f : P.faults) if (f.where == 1 && (n == f.index || (f.sticky && n > f.index))) { if (n == f.index) fired("alloc-fail", f.sticky ? "and all later ones" : ""); errno = ENOMEM; return true; }
    return false;
}
static char *raw_alloc(size_t n) {
    int c = cls_of(n); auto &fl = freel[c];
    if (P.reuse && !fl.empty() && lrng() % 100 < (P.reuse == 1 ? 100u : 50u)) {
        size_t k = P.reuse == 1 ? fl.size() - 1 : lrng() % fl.size(); char *p = fl[k]; if (((Hdr *)p)[-1].cap >= n) { fl[k] = fl.back(); fl.pop_back(); ((Hdr *)p)[-1].size = n; return p; }
    }
    Arena &a = AR[nar > 1 ? lrng() % nar : 0];
    size_t cap = P.tight ? (n + 15) & ~15ull : c < 40 ? (size_t)32 << c : n; size_t g = P.gap == 0 ? 0 : P.gap == 1 ? (lrng() % 8) * 16 : P.gap == 2 ? (lrng() % 512) * 16 : (lrng() % 256) * 64;
    char *p = a.cur + g + sizeof(Hdr); if (cap > (1u << 16)) cap = (n + 63) & ~63ull;
    if (p + cap > a.end) return nullptr;
    a.cur = p + cap; a.cur = (char *)(((u64)a.cur + 15) & ~15ull);
    Hdr *h = (Hdr *)p - 1; h->size = n; h->magic = 0xfeedc0de; h->cls = c; h->cap = cap; return p;
}
extern "C" void *sim_malloc(size_t n) { if (!in_build) return malloc(n); if (alloc_fails()) return nullptr; char *p = raw_alloc(n); if (p) fill(p, n); return p; }
extern "C" void *sim_calloc(size_t a, size_t b) { if (!in_build) return calloc(a, b); if (alloc_fails()) return nullptr; char *p = raw_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void sim_free(void *v) { if (!v) return; if (!ours(v)) { free(v); return; } Hdr *h = (Hdr *)v - 1; if (h->magic != 0xfeedc0de) { fprintf(stderr, "free(): invalid pointer\n"); abort(); } if (P.fill) memset(v, 0xdd, h->size); if (h->cls < 11) freel[h->cls].push_back((char *)v); }
extern "C" void *sim_realloc(void *v, size_t n) {
    if (!v) return sim_malloc(n); if (!ours(v)) return realloc(v, n);
    if (alloc_fails()) return nullptr;
    Hdr *h = (Hdr *)v - 1; size_t cap = h->cls < 11 ? h->cap : h->size;
    if (n <= cap && (P.layout == 0 || lrng() % 2)) { if (n > h->size) fill((char *)v + h->size, n - h->size); h->size = n; return v; }
    char *p = raw_alloc(n); if (!p) return nullptr; size_t m = std::min<size_t>(h->size, n); memcpy(p, v, m); if (n > m) fill(p + m, n - m); sim_free(v); return p;
}
extern "C" char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
extern "C" char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
extern "C" void *sim_aligned_alloc(size_t a, size_t n) { (void)a; return sim_malloc(n); }

// ---------------------------------------------------------------- operations and their faults
enum { oOpenR, oOpenW, oRead, oWrite, oClose, oStat, oAccess, oReal, oRemove, oCwd, oPopen, oSystem, oMkdir, oRename };
static const char *opn[] = {"open-read", "open-write", "read", "write", "close", "stat", "access", "realpath", "remove", "getcwd", "popen", "system", "mkdir", "rename"};
// 0 = nothing; otherwise the fault's number for this operation
static u64 op(int k, const char *what) {
    Obs &o = S->o; u64 n = ++o.nops; o.ophist[k]++;
    if (P.layout == 0 && getenv("COMP_OPS")) fprintf(stderr, "op %llu %s %s\n", (unsigned long long)n, opn[k], what);
    for (auto &f : P.faults) if (f.where == 0 ? f.index == n : f.where == 4 && f.file == (u64)k && f.index == o.ophist[k]) {
        if (f.what % 5 == 4) { fired("kill", opn[k]); kill(getpid(), SIGKILL); for (;;) pause(); }
        fired(opn[k], what); return 1 + f.what / 5;
    }
    return 0;
}
static void die_if_full(size_t) {}
struct Ck { int vf; string data; size_t pos; bool write, pipe; string path; int status; u64 id; bool dead = false; };
static u64 written_total = 0; static int npipes = 0;
static ssize_t ck_read(void *c, char *b, size_t n) {
    Ck *k = (Ck *)c; u64 f = op(oRead, k->path.c_str()); const char *d = k->vf >= 0 ? S->data[k->vf] : k->data.data(); size_t len = k->vf >= 0 ? S->f[k->vf].len : k->data.size();
    if (k->dead) { if (k->pipe) return 0; errno = EIO; return -1; }
    size_t avail = len > k->pos ? len - k->pos : 0; n = std::min(n, avail);
    for (auto &x : P.faults) if (x.where == 3 && k->id == x.file && !k->pipe) {   // the medium fails at this byte of this file
        size_t cut = x.index % (len + 1);
        if (x.what) { size_t e = string(d, len).find("\n}", cut); if (e != string::npos) cut = e + 3 <= len ? e + 3 : len; }
        if (k->pos >= cut) { fired("read-error-at", (std::to_string(cut) + " of " + k->path).c_str()); k->dead = true; errno = EIO; return -1; }
        n = std::min(n, cut - k->pos);
    }
    if (f) switch (f % 3) {
        case 0: if (n > 1) n = 1 + f % (n - 1); break;                       // short, not an error
        case 1: if (k->pipe) { k->dead = true; k->status = 9; n = n ? f % n : 0; break; } errno = EIO; return -1;
        case 2: if (n > 1) n = n / 2; if (k->pipe) { k->status = 0x100; } break;
    }
    memcpy(b, d + k->pos, n); k->pos += n; return n;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    Ck *k = (Ck *)c; u64 f = op(oWrite, k->path.c_str()); VFile &v = S->f[k->vf];
    size_t room = FCAP > k->pos ? FCAP - k->pos : 0; if (n > room) n = room;
    for (auto &x : P.faults) if (x.where == 2) {
        if (!x.sticky && k->dead) continue;
        if (written_total + n > x.index) {   // no space left from here on (or once)
            size_t ok = x.index > written_total ? x.index - written_total : 0; fired("disk-full", x.sticky ? "for good" : "once");
            if (!x.sticky) k->dead = true; if (ok == 0) { if (!x.sticky) written_total += n; errno = ENOSPC; return 0; } n = ok; break;
        }
    }
    if (f) switch (f % 4) { case 0: if (n > 1) n = 1 + f % (n - 1); break; case 1: errno = EIO; return 0; case 2: errno = ENOSPC; return 0; case 3: errno = EDQUOT; return 0; }
    if (k->pos > v.len) memset(S->data[k->vf] + v.len, 0, k->pos - v.len);
    memcpy(S->data[k->vf] + k->pos, b, n); k->pos += n; if (k->pos > v.len) v.len = k->pos; written_total += n; return n;
}
static int ck_seek(void *c, off64_t *o, int w) { Ck *k = (Ck *)c; size_t len = k->vf >= 0 ? S->f[k->vf].len : k->data.size(); i64 p = w == SEEK_SET ? *o : w == SEEK_CUR ? (i64)k->pos + *o : (i64)len + *o; if (p < 0) { errno = EINVAL; return -1; } k->pos = p; *o = p; return 0; }
static int ck_close(void *c) {
    Ck *k = (Ck *)c; u64 f = op(oClose, k->path.c_str()); int r = 0;
    if (f && k->write) { VFile &v = S->f[k->vf]; if (f % 2) v.len -= std::min<size_t>(v.len, 1 + f % 700); errno = f % 3 ? EIO : EDQUOT; r = -1; } // what was still cached is lost
    return r;
}
static u64 nopened = 0;
static FILE *mk(Ck *k) { cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; k->id = nopened++; return fopencookie(k, k->write ? "w+" : "r", io); }
static bool real_read(const string &p, string &out) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n); fclose(f); return true; }
extern "C" FILE *sim_fopen(const char *path, const char *mode) {
    if (!in_build) return fopen(path, mode);
    string p = norm(path); bool w = strpbrk(mode, "wa+") != nullptr; u64 f = op(w ? oOpenW : oOpenR, path);
    if (f) { int e[] = {EACCES, EMFILE, w ? ENOSPC : EIO, w ? EROFS : ENOENT}; errno = e[f % 4]; return nullptr; }
    Ck *k = new Ck{-1, "", 0, w, false, p, 0, 0};
    if (virt(p)) {
        k->vf = vfind(p); if (k->vf >= 0 && S->f[k->vf].dir) { errno = EISDIR; return nullptr; }
        if (k->vf < 0) { if (!w || mode[0] == 'r') { errno = ENOENT; return nullptr; } if (!parent_ok(p)) { errno = ENOENT; return nullptr; } k->vf = vnew(p, false); if (k->vf < 0) { errno = ENOSPC; return nullptr; } }
        if (mode[0] == 'w') S->f[k->vf].len = 0; if (mode[0] == 'a') k->pos = S->f[k->vf].len;
    } else { if (w) { errno = EROFS; return nullptr; } struct stat st; if (stat(p.c_str(), &st) || !S_ISREG(st.st_mode) || !real_read(p, k->data)) { errno = ENOENT; return nullptr; } }
    return mk(k);
}
extern "C" FILE *sim_popen(const char *cmd, const char *) {
    u64 f = op(oPopen, cmd); if (f && f % 2 == 0) { errno = f % 4 ? EMFILE : ENOMEM; return nullptr; }
    u64 key = hstr(cmd, strlen(cmd)); int i = 0; for (; i < S->npop && S->pop[i].key != key; i++) {}
    if (i == S->npop) { if (i == 4) { errno = EMFILE; return nullptr; } FILE *r = popen(cmd, "r"); if (!r) return nullptr; S->pop[i].key = key; S->pop[i].n = fread(S->pop[i].d, 1, sizeof S->pop[i].d, r); S->pop[i].status = pclose(r); S->npop++; }
    Ck *k = new Ck{-1, string(S->pop[i].d, S->pop[i].n), 0, false, true, "pipe", S->pop[i].status, 0};
    if (f) { k->data = f % 3 ? "" : "sh: 1: clang: not found\n"; k->status = 127 << 8; }
    FILE *fp = mk(k); extern std::map<FILE *, Ck *> *pipes; (*pipes)[fp] = k; return fp;
}
std::map<FILE *, Ck *> *pipes = new std::map<FILE *, Ck *>;
extern "C" int sim_pclose(FILE *fp) { auto it = pipes->find(fp); int st = it == pipes->end() ? -1 : it->second->status; fclose(fp); return st; }
// without the command the compiler notes at the end of the generated code
static string no_comment(const string &s) { size_t p = s.rfind("\n/* clang "); if (p == string::npos || s.size() < 4 || s.compare(s.size() - 4, 4, " */\n")) return s; return s.substr(0, p); }
static string token_o(const string &cmd) { size_t p = cmd.rfind(" -o "); if (p == string::npos) return "a.out"; p += 4; size_t e = cmd.find(' ', p); return cmd.substr(p, e == string::npos ? e : e - p); }
extern "C" int sim_system(const char *cmd) {
    u64 f = op(oSystem, cmd); string c = cmd; fflush(nullptr);
    if (f && f % 4 == 0) { fprintf(stderr, "cannot run it now\n"); errno = EAGAIN; return -1; }
    if (c.compare(0, 9, "mkdir -p ") == 0) { if (f) return 256; string d = norm(c.substr(9).c_str()); if (virt(d)) for (size_t i = CWD.size(); i <= d.size(); i++) if (i == d.size() || d[i] == '/') { string s = d.substr(0, i); if (s != CWD && vfind(s) < 0) vnew(s, true); } return 0; }
    if (c.compare(0, 5, "clang") == 0) {
        // stand-in for the native compiler: a program made of exactly this command and this generated source
        size_t i = 0; int sf = -1; u64 h = 17; bool missing = false, arg = true; // the tool's own name first
        while (i < c.size()) {
            size_t e = c.find(' ', i); if (e == string::npos) e = c.size(); string t = c.substr(i, e - i); i = e + 1; if (t.empty()) continue;
            if (t[0] != '-' && !arg && !(t.size() > 2 && (t.substr(t.size() - 2) == ".c" || t.substr(t.size() - 2) == ".o" || t.substr(t.size() - 2) == ".a"))) missing = true;
            arg = t == "-o" || t == "-framework" || t == "-isystem" || t == "-include" || t == "-isysroot" || t == "-x"; if (t.compare(0, 2, "-I")) h = mix(h, hstr(t.data(), t.size())); // where headers are looked for is not part of the program
            if (t.size() > 2 && t.substr(t.size() - 2) == ".c") { string q = norm(t.c_str()); string d; if (virt(q)) { sf = vfind(q); if (sf < 0) missing = true; else d.assign(S->data[sf], S->f[sf].len); } else if (!real_read(q, d)) missing = true; d = no_comment(d); h = mix(h, hstr(d.data(), d.size())); }
        }
        S->o.native_ran = true; S->o.cmdhash = hstr(cmd, strlen(cmd)); if (sf >= 0) { S->o.native_src = hstr(S->data[sf], S->f[sf].len); S->o.native_len = S->f[sf].len; }
        string out = norm(token_o(c).c_str());
        if (missing) { fprintf(stderr, "clang: error: no such file or directory\n"); return 256; }
        if (f) { if (f % 4 == 1) { fprintf(stderr, "clang: error: linker command failed with exit code 1\n"); return 256; } if (f % 4 == 2) return 9; fprintf(stderr, "sh: 1: clang: not found\n"); return 127 << 8; }
        if (!parent_ok(out)) { fprintf(stderr, "ld: cannot open output file\n"); return 256; }
        int of = vfind(out); if (of < 0) of = vnew(out, false); if (of < 0) return 256;
        char b[64]; S->f[of].len = snprintf(b, sizeof b, "PROGRAM %016llx\n", (unsigned long long)h); memcpy(S->data[of], b, S->f[of].len); S->o.native_ok = true; return 0;
    }
    string p = norm(c.substr(0, c.find(' ')).c_str()); int i = virt(p) ? vfind(p) : -1;
    if (i >= 0) { if (strncmp(S->data[i], "PROGRAM ", 8)) return 126 << 8; S->o.tests_ran++; if (f) { fprintf(stderr, "the tests fail\n"); return f % 2 ? 256 : 11; } S->o.tests_ok++; return 0; }
    fprintf(stderr, "sh: 1: %s: not found\n", cmd); return 127 << 8;
}
extern "C" int sim_stat(const char *path, struct stat *st) {
    u64 f = op(oStat, path); if (f) { errno = f % 2 ? EACCES : EIO; return -1; }
    string p = norm(path); if (!virt(p)) return stat(p.c_str(), st);
    int i = vfind(p); if (p != CWD && i < 0) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); bool d = p == CWD || S->f[i].dir; st->st_mode = d ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = d ? 4096 : S->f[i].len; st->st_mtim.tv_sec = P.t0; return 0;
}
extern "C" int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
extern "C" int sim_access(const char *path, int mode) { u64 f = op(oAccess, path); if (f) { errno = f % 2 ? EACCES : EIO; return -1; } string p = norm(path); if (!virt(p)) return access(p.c_str(), mode); if (p == CWD || vfind(p) >= 0) return 0; errno = ENOENT; return -1; }
extern "C" char *sim_realpath(const char *path, char *buf) {
    if (!path) { errno = EINVAL; return nullptr; }
    u64 f = op(oReal, path); if (f) { errno = f % 2 ? EACCES : EIO; return nullptr; }
    string p = norm(path); char t[4096]; if (!virt(p)) { if (!realpath(p.c_str(), t)) return nullptr; p = t; } else if (p != CWD && vfind(p) < 0) { errno = ENOENT; return nullptr; }
    if (!buf) buf = (char *)sim_malloc(4096); if (buf) strcpy(buf, p.c_str()); return buf;
}
static int vremove(const char *path) { u64 f = op(oRemove, path); if (f) { errno = f % 2 ? EACCES : EBUSY; return -1; } int i = vfind(norm(path)); if (i < 0) { errno = ENOENT; return -1; } S->f[i].used = false; return 0; }
extern "C" int sim_remove(const char *path) { return vremove(path); }
extern "C" int sim_unlink(const char *path) { return vremove(path); }
extern "C" int sim_rename(const char *a, const char *b) { u64 f = op(oRename, a); if (f) { errno = f % 2 ? EACCES : ENOSPC; return -1; } string pa = norm(a), pb = norm(b); int i = vfind(pa); if (i < 0 || !virt(pb) || !parent_ok(pb)) { errno = ENOENT; return -1; } int j = vfind(pb); if (j >= 0) S->f[j].used = false; snprintf(S->f[i].path, sizeof S->f[i].path, "%s", pb.c_str()); return 0; }
extern "C" int sim_mkdir(const char *path, mode_t) { u64 f = op(oMkdir, path); if (f) { errno = f % 2 ? EACCES : ENOSPC; return -1; } string p = norm(path); if (!virt(p)) { errno = EROFS; return -1; } if (p == CWD || vfind(p) >= 0) { errno = EEXIST; return -1; } if (!parent_ok(p)) { errno = ENOENT; return -1; } vnew(p, true); return 0; }
extern "C" char *sim_getcwd(char *b, size_t n) { u64 f = op(oCwd, ""); if (f || n <= CWD.size()) { errno = f % 2 ? ENOENT : ERANGE; return nullptr; } if (!b) b = (char *)sim_malloc(n); if (b) strcpy(b, CWD.c_str()); return b; }
extern "C" char *sim_getenv(const char *n) { if (!strncmp(n, "CXY", 3)) return nullptr; return getenv(n); }
extern "C" int sim_timespec_get(struct timespec *ts, int b) { ts->tv_sec = P.t0; ts->tv_nsec = 0; return b; }
extern "C" int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = P.t0; ts->tv_nsec = 0; return 0; }
extern "C" time_t sim_time(time_t *t) { if (t) *t = P.t0; return P.t0; }
extern "C" int cxy_main(int, char **);
static void leave(int code) { fflush(nullptr); S->o.exited = true; S->o.code = code; _exit(0); }
extern "C" void sim_exit(int code) { leave(code); }
extern "C" void sim__exit(int code) { S->o.exited = true; S->o.code = code; _exit(0); }

// ---------------------------------------------------------------- one build
static int errfd = -1;
__attribute__((noinline)) static void dirty_stack() { volatile char *b = (volatile char *)alloca(1 << 20); char *q = (char *)b; fill(q, 1 << 20); if (!P.fill) memset(q, 0, 1 << 20); asm volatile("" ::"r"(q) : "memory"); }
__attribute__((noinline)) static int padded(int argc, char **argv) { volatile char *b = (volatile char *)alloca(16 + P.stackpad * 16); b[0] = 0; dirty_stack(); return cxy_main(argc, argv); }
// the statistics about time and memory are not part of the outcome
static string no_stats(const string &t) { string o; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); e = e == string::npos ? t.size() : e + 1; string l = t.substr(i, e - i); if (l.find("memory: ") == string::npos && l.find("duration: ") == string::npos) o += l; i = e; } return o; }
static Res build(const std::vector<string> &args, const Plan &plan, const string &outname) {
    if (errfd < 0) errfd = memfd_create("out", 0);
    if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); memset(&S->o, 0, sizeof S->o);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) signal(s, SIG_DFL);
        if (getenv("COMP_BT")) signal(SIGSEGV, [](int) { void *b[40]; int n = backtrace(b, 40), fd = open("/dev/tty", 1); if (fd < 0) fd = open(getenv("COMP_BT"), O_WRONLY | O_CREAT, 0644); backtrace_symbols_fd(b, n, fd); signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); });
        rlimit rl{12, 13}; setrlimit(RLIMIT_CPU, &rl); alarm(60);
        dup2(errfd, 1); dup2(errfd, 2); setvbuf(stdout, nullptr, _IONBF, 0); setvbuf(stderr, nullptr, _IONBF, 0);
        P = plan; arenas_init();
        for (int i = 0; i < P.heapnoise * 40; i++) { void *x = malloc(16 + lrng() % 3000); if (lrng() % 2) free(x); }   // the C++ parts' heap
        std::vector<char *> av; for (auto &a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
        in_build = true;
        int rc = padded(args.size(), av.data());
        leave(rc);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Res r; r.exited = S->o.exited; r.code = S->o.code; r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; if (!r.exited && !r.sig) { r.exited = true; r.code = WEXITSTATUS(st); }
    if (r.sig) r.exited = false;
    r.cmd = S->o.cmdhash; r.native_ran = S->o.native_ran; r.native_ok = S->o.native_ok; r.native_src = S->o.native_src; r.tests = S->o.tests_ran; r.tests_ok = S->o.tests_ok; memcpy(r.ophist, S->o.ophist, sizeof r.ophist); r.nops = S->o.nops; r.nallocs = S->o.nallocs;
    struct stat es; fstat(errfd, &es); string all(es.st_size, 0); ssize_t n = pread(errfd, &all[0], all.size(), 0); all.resize(n > 0 ? n : 0); r.text = no_stats(all); r.outh = hstr(r.text.data(), r.text.size());
    int i = vfind(norm((outname + ".c").c_str())); if (i >= 0) { r.have_src = true; r.src = hstr(S->data[i], S->f[i].len); r.source.assign(S->data[i], S->f[i].len); }
    i = vfind(norm(outname.c_str())); if (i >= 0) { r.have_bin = true; r.bin = hstr(S->data[i], S->f[i].len); }
    for (int k = 0; k < S->o.nfired; k++) { string f = S->o.fired[k]; ev("  fault: %s", f.c_str()); fault(f.substr(0, f.find(' ')).c_str()); }
    return r;
}
static void wipe() { for (int i = 0; i < NF; i++) S->f[i].used = false; }
static string outcome(const Res &r) { char b[160]; if (r.sig) snprintf(b, sizeof b, "died with signal %d", r.sig); else snprintf(b, sizeof b, "exit status %d", r.code); return b; }
static string tail(const string &s) { string t = s.size() > 300 ? s.substr(s.size() - 300) : s; for (auto &c : t) if (c < 32 || c > 126) c = ' '; return t; }
static string first_diff(const string &a, const string &b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; if (i == a.size() && i == b.size()) return "no difference";
    size_t l = 1 + std::count(a.begin(), a.begin() + std::min(i, a.size()), '\n'); auto line = [&](const string &s) { size_t b0 = s.rfind('\n', i ? i - 1 : 0); b0 = b0 == string::npos ? 0 : b0 + 1; if (i > b0 + 60) b0 = i - 60; size_t e = s.find('\n', i); return s.substr(b0, std::min<size_t>((e == string::npos ? s.size() : e) - b0, 140)); };
    return "line " + std::to_string(l) + ": <" + line(a) + "> against <" + line(b) + ">";
}

// ---------------------------------------------------------------- programs
struct Prog { string name, text, path, lib; std::vector<string> args; string out; bool generated = false; };
static std::vector<string> corpus; static std::vector<string> corpus_text;
static void load(const string &dir, std::vector<string> &out) { std::vector<string> v; DIR *d = opendir(dir.c_str()); if (!d) return; while (dirent *e = readdir(d)) { string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".cxy") v.push_back(dir + "/" + n); } closedir(d); std::sort(v.begin(), v.end()); for (auto &x : v) out.push_back(x); }
static void init_corpus() {
    if (!corpus.empty()) return;
    string repo = opt("repo"), ver = opt("verif"); load(ver + "/harness/comp/programs", corpus); load(repo + "/src/cxy/stdlib", corpus);
    for (auto d : {"ev", "tcp", "dns", "http", "io", "proc", "fetch", "tls", "thr"}) load(ver + "/harness/" + d, corpus);
    for (auto &c : corpus) { string t; real_read(c, t); corpus_text.push_back(t); }
}
static Prog choose_program(bool small) {
    Prog g; g.out = "app";
    bool gen = coin(small ? 600 : 500, "generated");
    string stdlib = opt("repo") + "/src/cxy";
    if (gen) { g.generated = true; g.text = generate_program([](u64 n, const char *t) { return choose(n, t); }, g.lib); g.name = "generated"; g.args = {"cxy", coin(250, "test-mode") ? "test" : "build"}; }
    else {
        size_t n = corpus.size(); size_t i = choose(small ? std::min<size_t>(n, 24) : n, "program"); g.name = corpus[i].substr(corpus[i].rfind('/') + 1); g.text = corpus_text[i]; if (corpus[i].find("/stdlib/") != string::npos) g.path = corpus[i];
        g.args = {"cxy", corpus[i].find("/stdlib/") != string::npos || coin(200, "test-mode") ? "test" : "build"};
    }
    g.args.push_back("--no-progress"); g.args.push_back("--stdlib"); g.args.push_back(stdlib);
    if (!small && coin(120, "dev")) { // the developer's dumps of intermediate stages
        static const char *st[] = {"Parse", "Preprocess", "Shake", "Bind", "TypeCheck", "Simplify", "MemoryMgmt", "Lower", "Codegen"}, *fm[] = {"CXY", "JSON", "YAML"}; g.args[1] = "dev"; g.args.push_back(string("--last-stage=") + st[choose(9, "stage")]); g.args.push_back(string("--dump-ast=") + fm[choose(3, "format")]); if (coin(300, "loc")) g.args.push_back("--with-location");
    }
    if (coin(100, "optimise")) g.args.push_back("-O2"); if (coin(60, "define")) g.args.push_back("-DFEATURE_X=3"); if (coin(60, "warn")) g.args.push_back("--warnings-all"); if (coin(60, "nocolor")) g.args.push_back("--no-color");
    if (!coin(100, "no-mm")) g.args.push_back("--with-mm");
    if (coin(150, "debug")) g.args.push_back("-g");
    if (g.args[1] == "build" && coin(500, "named")) { g.args.push_back("--output"); g.args.push_back("prog"); g.out = "prog"; }
    g.args.push_back(g.path.empty() ? "app.cxy" : g.path);
    return g;
}
static void lay(const Prog &g) { wipe(); vput("/work/app.cxy", g.text); if (g.lib.size()) vput("/work/lib.cxy", g.lib); }

static Res reference(const Prog &g) {
    // the same for every run of this program: neither faults nor choices
    u64 key = mix(hstr(g.text.data(), g.text.size()), hstr(g.lib.data(), g.lib.size())); for (auto &x : g.args) key = mix(key, hstr(x.data(), x.size())); Res r; bool kept = false;
    for (int i = 0; i < K->n && !kept; i++) if (K->k[i].valid && K->k[i].key == key) { Kept &k = K->k[i]; kept = true; r.sig = k.sig; r.code = k.code; r.exited = k.exited; r.cmd = k.cmd; r.src = k.src; r.bin = k.bin; r.outh = k.outh; r.native_src = k.native_src; r.have_src = k.have_src; r.have_bin = k.have_bin; r.native_ran = k.native_ran; r.native_ok = k.native_ok; r.tests = k.tests; r.nops = k.nops; r.nallocs = k.nallocs; r.tests_ok = k.tests; memcpy(r.ophist, k.ophist, sizeof r.ophist); r.text.assign(K->d + k.text, k.ntext); r.source.assign(K->d + k.source, k.nsource); }
    if (!kept) {
        lay(g); Plan p; r = build(g.args, p, g.out);
        if (!g.generated && K->n < NK && K->used + r.text.size() + r.source.size() < KCAP) { Kept &k = K->k[K->n]; k.key = key; k.sig = r.sig; k.code = r.code; k.exited = r.exited; k.cmd = r.cmd; k.src = r.src; k.bin = r.bin; k.outh = r.outh; k.native_src = r.native_src; k.have_src = r.have_src; k.have_bin = r.have_bin; k.native_ran = r.native_ran; k.native_ok = r.native_ok; k.tests = r.tests; k.nops = r.nops; k.nallocs = r.nallocs; memcpy(k.ophist, r.ophist, sizeof r.ophist); k.text = K->used; k.ntext = r.text.size(); memcpy(K->d + k.text, r.text.data(), k.ntext); K->used += k.ntext; k.source = K->used; k.nsource = r.source.size(); memcpy(K->d + k.source, r.source.data(), k.nsource); K->used += k.nsource; k.valid = true; K->n++; }
    }
    ev("%s (%s): undisturbed build: %s, %zu bytes of code, %llu operations, %llu allocations", g.name.c_str(), g.args[1].c_str(), outcome(r).c_str(), r.source.size(), (unsigned long long)r.nops, (unsigned long long)r.nallocs);
    count(r.exited && r.code == 0 ? "programs-that-compile" : r.sig ? "programs-that-crash-the-compiler" : "programs-rejected");
    return r;
}
static Plan choose_layout() {
    Plan p; p.layout = 1 + choose(1u << 30, "layout"); p.fill = choose(6, "fill"); p.arenas = 1 + choose(4, "arenas"); p.gap = choose(4, "gap"); p.reuse = choose(3, "reuse"); p.stackpad = choose(64, "stackpad"); p.heapnoise = choose(8, "heapnoise"); p.tight = choose(2, "tight");
    p.t0 += choose(2, "clock") * 86400 * 400ll; return p;
}
static void run_c16() {
    Prog g = choose_program(false); Res r = reference(g); int n = 1 + choose(g.generated ? 3 : 2, "builds");
    for (int i = 0; i < n; i++) {
        Plan p = choose_layout(); lay(g); Res q = build(g.args, p, g.out); state_mark(mix(mix(q.src, p.fill * 64 + p.arenas * 16 + p.gap * 4 + p.reuse), q.code));
        ev("build with layout %llx fill %d arenas %d gap %d reuse %d: %s, %zu bytes of code", (unsigned long long)p.layout, p.fill, p.arenas, p.gap, p.reuse, outcome(q).c_str(), q.source.size());
        count("builds-compared");
        if (outcome(q) != outcome(r)) violate("outcome-varies", "%s: the same compilation ends with %s under one memory layout and with %s under another: %s", g.name.c_str(), outcome(r).c_str(), outcome(q).c_str(), tail(q.sig || q.code ? q.text : r.text).c_str());
        if (r.sig) continue;
        if (q.have_src != r.have_src || q.src != r.src) violate("code-varies", "%s: the generated code depends on the memory layout: %s", g.name.c_str(), first_diff(r.source, q.source).c_str());
        if (q.cmd != r.cmd || q.native_ran != r.native_ran || q.bin != r.bin) violate("command-varies", "%s: the native compiler's command depends on the memory layout", g.name.c_str());
        if (q.outh != r.outh) violate("messages-vary", "%s: what the compiler reports depends on the memory layout: %s", g.name.c_str(), first_diff(r.text, q.text).c_str());
    }
    finish();
}
static void judge(const Prog &g, const Res &r, const Res &q, bool killed, const char *which) {
    if (q.sig == SIGKILL && killed) return;
    if (q.sig == SIGXCPU || q.sig == SIGALRM || q.sig == SIGKILL) violate("hang", "%s: the %s never ends", g.name.c_str(), which);
    if (q.sig && q.sig != SIGABRT) violate("crash", "%s: the %s dies with signal %d: %s", g.name.c_str(), which, q.sig, tail(q.text).c_str());
    if (q.sig || q.code != 0) { if (q.text.empty() || q.outh == r.outh) violate("silent-failure", "%s: the %s fails (%s) without a word", g.name.c_str(), which, outcome(q).c_str()); return; }
    if (!q.have_src || no_comment(q.source) != no_comment(r.source)) violate("bad-code-reported-as-success", "%s: the %s reports success but the generated code is %s: %s", g.name.c_str(), which, q.have_src ? "damaged" : "missing", first_diff(r.source, q.source).c_str());
    if (!q.have_bin || q.bin != r.bin) violate("bad-program-reported-as-success", "%s: the %s reports success but the program is %s", g.name.c_str(), which, q.have_bin ? "not the one of an undisturbed build" : "missing");
    if (r.native_ok && !q.native_ok) violate("success-without-native-compiler", "%s: the %s reports success but the native compiler %s", g.name.c_str(), which, q.native_ran ? "failed" : "was not run");
    if (q.tests_ok != r.tests_ok) violate("success-of-failed-tests", "%s: the %s reports success but the tests passed %d times instead of %d", g.name.c_str(), which, q.tests_ok, r.tests_ok);
}
static void run_c17() {
    Prog g = choose_program(true); Res r = reference(g);
    if (r.sig) finish();
    lay(g);
    switch (choose(4, "before")) { case 1: vput("/work/" + g.out + ".c", "/* of an older build */ int main() { return 3; }\n"); vput("/work/" + g.out, "PROGRAM of an older build\n"); break; case 2: vput("/work/" + g.out + ".c", r.source + r.source.substr(0, 5000)); break; case 3: vput("/work/" + g.out, "PROGR"); break; }
    bool ref_ok = r.exited && r.code == 0; bool killed = false;
    int rounds = 1 + choose(2, "disturbed-builds");
    for (int k = 0; k < rounds; k++) {
        Plan p; int n = 1 + choose(3, "faults");
        if (coin(200, "layout-too")) p = choose_layout();
        for (int i = 0; i < n; i++) {
            Fault f{}; switch (choose(10, "fault-where")) {
                case 0: case 1: case 2: f.where = 0; f.index = 1 + choose(r.nops, "op"); break;
                case 3: f.where = 0; f.index = r.nops - choose(std::min<u64>(r.nops, coin(400, "very-late") ? 3 : 24), "late-op"); break;
                case 4: f.where = 0; f.index = 1 + choose(std::min<u64>(r.nops, 24), "early-op"); break;
                case 5: f.where = 1; f.index = 1 + choose(r.nallocs, "allocation"); f.sticky = coin(500, "sticky"); break;
                case 6: f.where = 2; f.index = coin(400, "near-end") ? r.source.size() - std::min<u64>(r.source.size(), choose(6000, "byte")) : choose(r.source.size() + 1, "byte"); f.sticky = !coin(300, "once"); break;
                case 8: case 9: { std::vector<int> ks; for (int i = 0; i < 16; i++) if (r.ophist[i]) ks.push_back(i); if (ks.empty()) break; f.where = 4; f.file = ks[choose(ks.size(), "kind")]; f.index = 1 + choose(r.ophist[f.file], "op"); break; }
                case 7: f.where = 3; f.file = 1 + choose(12, "file"); f.index = choose(60000, "offset"); f.what = choose(2, "at-declaration"); break;
            }
            if (f.where == 0 || f.where == 4) f.what = choose(120, "fault-kind");
            p.faults.push_back(f);
        }
        Res q = build(g.args, p, g.out); bool k1 = q.sig == SIGKILL; killed |= k1; if (k1) count("builds-killed"); else count(q.sig || q.code ? "disturbed-builds-that-fail" : "disturbed-builds-that-succeed");
        state_mark(mix(q.nops * 64 + q.sig, q.code * 7 + q.native_ran)); ev("disturbed build: %s: %s", outcome(q).c_str(), tail(q.text).c_str());
        if (ref_ok) judge(g, r, q, k1, "disturbed build");
        else if (q.exited && q.code == 0) violate("success-of-a-bad-program", "%s: a program that does not compile is reported as compiled when operations fail", g.name.c_str());
    }
    Plan p; Res q = build(g.args, p, g.out); ev("undisturbed build over what was left: %s", outcome(q).c_str());
    if (outcome(q) != outcome(r)) violate("later-build-differs", "%s: a build after a disturbed one ends with %s instead of %s: %s", g.name.c_str(), outcome(q).c_str(), outcome(r).c_str(), tail(q.text).c_str());
    if (ref_ok) judge(g, r, q, false, "build after a disturbed one");
    finish();
}
static void setup() { init_corpus(); if (opt("prop") == "C17") run_c17(); else run_c16(); }
static void idle() { finish(); }
static void exited(int) { finish(); }
namespace sim { Harness harness = {"comp", setup, idle, exited}; }
__attribute__((constructor)) static void mkshm() { K = (KeptSh *)mmap(nullptr, sizeof(KeptSh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); S = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
