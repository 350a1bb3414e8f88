// simkit: deterministic simulation of a process' operating system.
//
// The code under test (generated by cxy from /repo's library, plus /repo's native C files) is linked with its libc
// calls renamed to sim_*; everything that can vary between two executions is decided here by choose().
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <memory>

namespace sim {
using u64 = uint64_t; using i64 = int64_t; using u32 = uint32_t;

// ---- decisions -------------------------------------------------------------------------------------------------
u64 choose(u64 n, const char *tag);           // uniform in [0,n); 0 is the simplest alternative
inline u64 range(u64 lo, u64 hi, const char *tag) { return lo + choose(hi - lo + 1, tag); }
bool coin(unsigned permille, const char *tag); // false is simplest
u64 entropy();                                 // bytes for the program's own randomness: a stream seeded by one choice
extern bool replaying;

// ---- trace, oracles, counters ----------------------------------------------------------------------------------
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    // readable trace line, part of the run's hash
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();                    // the run is over and nothing was violated
void count(const char *name, u64 n = 1);       // per-run counter, summed in evidence
void fault(const char *name);                  // a fault that actually fired
void state_mark(u64 h);                        // a state signature, for the distinct-states measure
u64 mix(u64 h, u64 v);
const std::string &opt(const char *key);       // harness option from the command line ("" if absent)
extern std::string last_stderr;                // what the program wrote to descriptor 2

// ---- time ------------------------------------------------------------------------------------------------------
u64 now_ns();                                  // monotonic
i64 wall_ns();                                 // wall clock = monotonic + offset
void step_wall(i64 delta_ns);
void at(u64 t_ns, std::function<void()> fn);   // event
inline void after(u64 d_ns, std::function<void()> fn) { at(now_ns() + d_ns, std::move(fn)); }
bool events_pending();
void advance_to(u64 t_ns);                     // run events due until t
u64 sim_calls();
constexpr u64 US = 1000, MS = 1000000, SEC = 1000000000ull;

// ---- addresses -------------------------------------------------------------------------------------------------
struct Addr {
    int family = 0; uint8_t ip[16] = {0}; uint16_t port = 0;
    bool operator<(const Addr &o) const;
    bool operator==(const Addr &o) const;
    std::string str() const;
};
Addr v4(const char *dotted, uint16_t port);

// ---- stream endpoints ------------------------------------------------------------------------------------------
struct Endpoint;
using EpP = std::shared_ptr<Endpoint>;
struct NetProfile {            // how the network treats one direction's data
    u64 lat_min = 20 * US, lat_max = 200 * US;
    unsigned seg_mode = 0;     // 0 whole, 1 random pieces, 2 single bytes, 3 halves
    unsigned short_permille = 0; // chance that a send/recv by the program transfers less than it could
    unsigned eagain_permille = 0; // chance that a ready operation still reports EAGAIN (spurious readiness)
};
struct Endpoint : std::enable_shared_from_this<Endpoint> {
    std::weak_ptr<Endpoint> peer; EpP peer_keep;   // peer_keep while connected
    Addr local, remote; std::string name;
    std::string rx; size_t rcvcap = 65536; size_t inflight = 0;
    bool rx_eof = false, fin_sent = false, closed = false, rst = false, was_rst = false, pipe = false;
    int so_err = 0; u64 last_arrival = 0; bool established = false; bool connecting = false;
    NetProfile prof;                                // for data sent BY this endpoint
    u64 sent_total = 0, recv_total = 0, hole = 0;
    u64 ready_since_r = 0, ready_since_w = 0;
    bool blackhole = false;                         // data sent to this endpoint is never delivered
    std::function<void()> on_event;                 // actor side: data, eof, reset or space
    std::function<void(EpP)> on_sut_data;           // observation of data accepted from the program
    std::string tx_log; bool log_tx = false;        // bytes the program's sends had accepted
    size_t space() const;                           // room for data sent TO this endpoint
    size_t tx_space() const { auto p = peer.lock(); return p ? p->space() : 0; }
    // actor side operations
    size_t send(const std::string &d);              // returns bytes accepted
    std::string take(size_t max = (size_t)-1);      // read received data
    void shutdown_wr(); void close_(); void reset();
    bool readable() const; bool writable() const; bool hup() const; bool err() const;
};
struct Accepted { EpP ep; };
// actor-side listener: cb is called with the actor's endpoint when the program (or an actor) connects
struct ConnectPolicy { int mode = 0; /*0 ok,1 refused,2 unreachable,3 never answers,4 reset after connect,5 immediate error*/ u64 delay = 100 * US; int err = 0; };
void actor_listen(const Addr &a, std::function<void(EpP)> cb, std::function<ConnectPolicy()> policy = nullptr);
// actor connects to a listener of the program; result later via ep->on_event (established / so_err)
EpP actor_connect(const Addr &to, const Addr &from, const NetProfile &mine, const NetProfile &theirs, size_t mycap, size_t theircap);
extern NetProfile default_profile; extern size_t default_rcvcap;

// ---- datagrams -------------------------------------------------------------------------------------------------
void actor_udp(const Addr &a, std::function<void(const Addr &from, const std::string &d)> cb);
void udp_deliver(const Addr &to, const Addr &from, const std::string &d, u64 delay, std::function<void(bool queued)> done = nullptr);
extern std::function<u64()> udp_tx_fate;        // for datagrams sent by the program: ~0 = lost, else delay
extern std::function<void(const Addr &from, const Addr &to, const std::string &)> on_udp_send;
void udp_icmp_refused(const Addr &to, const Addr &from);

// ---- files -----------------------------------------------------------------------------------------------------
struct Inode { std::string data; bool dir = false; unsigned mode = 0644; bool unlinked = false; int opens = 0; i64 mtime = 1700000000; };
using InodeP = std::shared_ptr<Inode>;
extern std::map<std::string, InodeP> vfs;
struct FileFaults { unsigned short_permille = 0, eintr_permille = 0; int fail_after = -1; int fail_errno = 0; u64 disk_cap = ~0ull; };
extern FileFaults file_faults;
struct FileError { const char *what; std::string path; int fd, err; };
void file_arm(); // count file_faults.fail_after from now on
extern std::vector<FileError> file_errors;        // every error the file system reported, injected or because the disk is full
extern std::function<void(InodeP, const std::string &path)> on_file_read; // a file is about to be read or sent

// ---- descriptors -----------------------------------------------------------------------------------------------
struct FdInfo { int fd; const char *kind; EpP ep; bool nonblock; uint16_t port; std::string path; };
std::vector<FdInfo> list_fds();                 // every open simulated descriptor from 3 on except epoll instances
extern std::function<void(EpP)> on_backlog;     // a connection was queued at a listener of the program
int sut_backlog(const Addr &a, int *fd = nullptr); // connections queued at the program's listener there, -1 if none listens
Addr addr_of(const void *sockaddr);
extern int watch_always; /* never refused */ extern std::function<void()> on_no_memory; extern u64 accept_faults, socket_faults, watch_faults;        // injected so far
int open_fds();                                 // open simulated descriptors other than 0,1,2 and epoll instances
std::string describe_fds();
int sut_socketpair_fd(EpP *other, size_t cap_to_sut, size_t cap_from_sut, const NetProfile &p_sut, const NetProfile &p_peer);
EpP endpoint_of(int fd);
int sut_pipe_read_fd(EpP *writer, size_t cap);  // program reads, actor writes
int sut_pipe_write_fd(EpP *reader, size_t cap); // program writes, actor reads
void fd_set_nonblock(int fd, bool nb);
void fd_close(int fd); bool fd_move(int fd, int to); // gives a descriptor that nobody waits for another number
int fd_of_path(const std::string &path, int flags);
bool fd_readable(int fd); bool fd_writable(int fd);
extern std::string stdout_log;

// ---- child processes -------------------------------------------------------------------------------------------
extern bool in_child;                            // this is the copy of the program fork() made, until it executes a command
struct Proc {
    int pid = 0; bool execed = false, ended = false, reaped = false, sigpipe_ignored = false; int status = 0; u64 forked_at = 0, ended_at = 0;
    std::string cmd; std::vector<std::string> argv, env; EpP std[3]; char std_kind[3] = {0, 0, 0}; // r, w: pipe ends, s: the program's own, x: something else
    int more_pipes = 0; std::vector<std::shared_ptr<struct File>> holds; std::shared_ptr<bool> ready; void *user = nullptr;
};
extern std::map<std::string, int> commands;      // commands that exist; 0 or the error executing them gives
extern std::function<void(Proc *)> on_fork, on_exec, on_end; // a child exists; it runs its command; it is gone
void proc_end(Proc *, int status);
void proc_close(Proc *, int std_fd);             // the child closes its standard stream

// ---- system-level faults ---------------------------------------------------------------------------------------
struct SysFaults {
    unsigned stall_permille = 0; u64 stall_max = 0;     // the process is not scheduled for a while
    unsigned epoll_eintr_permille = 0;
    unsigned accept_fail_permille = 0; int accept_errno = 0;
    unsigned socket_fail_permille = 0;
    unsigned pipe_fail_permille = 0, fork_fail_permille = 0, pidfd_fail_permille = 0, wait_eintr_permille = 0, child_dup_fail_permille = 0;
    unsigned thread_fail_permille = 0, native_alloc_fail_permille = 0;
    unsigned spurious_ready_permille = 0, epoll_ctl_fail_permille = 0;
    int fd_limit = 1024;
};
extern SysFaults sysf;
extern u64 max_calls;                            // livelock bound on simulated calls per run
extern std::function<void(u64 deadline)> on_block; // the event wait is about to keep the thread until deadline (~0: for ever)
u64 stall_total();                               // time the process was not scheduled at all
u64 longest_block_ns();                          // longest time a call other than the event wait kept the process
void reset_longest_block();

// ---- memory ----------------------------------------------------------------------------------------------------
i64 live_allocs(); i64 live_bytes(); i64 live_maps(); i64 live_map_bytes();
extern bool track_blocks; u64 block_at(const void *p);   // serial number of the live block p points into, 0 if none (when tracking)
void refused_now(); u64 refused_by(int thread);

// ---- harness hooks ---------------------------------------------------------------------------------------------
struct Harness {
    const char *name;
    void (*setup)();                             // before the program starts: choose the scenario, start actors
    void (*idle)();                              // the program waits and nothing will ever happen: judge and finish()/violate()
    void (*exited)(int code);                    // main returned or exit was called
};
extern Harness harness;                          // defined by each harness
extern const char *livelock_class;

// ---- threads (when built with SIM_THREADS) ---------------------------------------------------------------------
int cur_thread(); int live_threads(); void set_preempt(unsigned permille); void set_access_gap(unsigned g); extern unsigned access_gap;
extern u64 threads_refused; bool wait_until(std::function<bool()> pred, u64 deadline); void yield_thread(const char *why);
}
