// Deterministic simulation runtime: scheduler, clock, choices, log.
#ifndef SIM_HPP
#define SIM_HPP
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <map>

namespace sim {
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- choices
// Every random decision is drawn from a (stream, actor) pair and recorded.
// Value 0 is always the simplest one (no fault, no delay, smallest op).
enum ChStream { ST_KNOB = 0, ST_OP, ST_NET, ST_FAULT, ST_SYNC, ST_N };
unsigned draw(ChStream s, unsigned n);                 // 0..n-1
unsigned draw_a(ChStream s, unsigned actor, unsigned n); // explicit actor
bool chance(ChStream s, unsigned num, unsigned den);   // num/den, false=default
bool chance_a(ChStream s, unsigned actor, unsigned num, unsigned den);
bool op_skipped(unsigned actor, unsigned op);        // minimiser's skip set

// ---------------------------------------------------------------- running
i64 now();                       // simulated microseconds since start
const i64 SEC = 1000000;
const i64 MS = 1000;
void point(const char *what);    // scheduling point of the current thread
// Block until pred() or the deadline (absolute, -1 never). True: pred holds.
bool block(const char *what, const std::function<bool()> &pred, i64 deadline);
void sleep_us(i64 us);
void dirty();                    // some predicate may have changed
void at(i64 when, std::function<void()> fn);   // timed event
int spawn(const char *name, std::function<void()> fn, unsigned actor);
int thread_id();
bool finished(int tid);
void join(int tid);
int self_id();
unsigned self_actor();
bool in_sim();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// ---------------------------------------------------------------- results
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Record the violation and end the run.
void class_prefix(const char *);   // put before the class of any violation of this run
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();
void count(const char *name, u64 n = 1);   // fault counters and probes
void state_mark(u64 h);                    // abstract state reached
bool verbose();
u64 mix(u64 a, u64 b);
u64 hash_str(const std::string &s);

// ------------------------------------------------------------------ knobs
struct Knobs {
    // scheduling
    int point_den = 4;       // 1/den chance to switch at a scheduling point
    int preempt_mean = 0;    // mean instrumented accesses between preemptions
    bool pct = false;
    int spurious_den = 0;    // spurious cond wakeups
    int stall_den = 0;       // thread stalls at points
    int stall_max_ms = 0;
    // network
    i64 lat_min = 100, lat_max = 100;
    int short_read_den = 0, short_write_den = 0, split_den = 0;
    size_t pipe_cap = 65536;
    size_t fifo_cap = 65536; // pipes
    unsigned thread_fail_den = 0;
    int rst_den = 0;         // per proxy-side write
    int max_fds = 100000;
    int accept_fail_den = 0;
    int dns_fail_den = 0;
    int lat_spike_den = 0; i64 lat_spike = 0;
    // clock
    i64 wall_off = 0;
    u64 max_steps = 3000000;
    i64 max_time = 3600 * SEC;
};
extern Knobs K;
void swarm_sched();   // draw scheduling knobs
void swarm_net();     // draw network knobs (no loss of data)

// ---------------------------------------------------------------- network
struct Sock;
typedef std::shared_ptr<Sock> SockP;
struct NetAddr { uint32_t ip; uint16_t port; };
uint32_t dns(const std::string &name, bool add);
std::string ipstr(uint32_t ip);
SockP env_listen(const std::string &host, int port);
SockP env_accept(SockP l, i64 deadline);
SockP env_connect(const std::string &src, const std::string &host, int port,
                  i64 deadline);
// >0 bytes, 0 EOF, -1 timeout, -2 reset
long env_read(SockP s, char *buf, size_t n, i64 deadline);
// false: connection is gone or deadline passed
bool env_write(SockP s, const std::string &data, i64 deadline = -1);
void env_close(SockP s);
void env_shutdown_wr(SockP s);
void env_reset(SockP s);
bool env_peer_closed(SockP s);     // FIN or RST seen
std::string env_peer_ip(SockP s);
int env_conn_id(SockP s);
void net_blackhole(const std::string &host, int port, bool on);
int open_fds();                    // descriptors held by the proxy
int open_file_count();             // FILEs among them
std::string list_fds();
int open_conns_to(const std::string &host, int port); // proxy side, not closed
// ---------------------------------------------------------------- signals
void raise_signal(int signo);
bool signal_handled(int signo);  // has a handler been installed?
bool proxy_exited();
int proxy_exit_code();
// ---------------------------------------------------------------- files
struct FsFile {
    std::string data;
    bool exists = true, isdir = false, eio_open = false, eacces = false;
    long read_err_at = -1;   // byte offset at which reads fail
    long truncate_after_stat = -1; // size seen by readers
    long stat_size = -1;     // size reported by stat/seek when not the real
};
extern std::map<std::string, FsFile> fs;
extern std::map<std::string, std::string> fs_written;
extern unsigned fs_write_den;                  // one write in so many fails
extern std::vector<std::string> fs_opened;   // every path opened or asked about

// result block shared with the parent process
struct Counter { char name[40]; u64 n; };
struct Result {
    volatile int status;     // 0 running, 1 finished ok, 2 violation, 3 error
    char cls[200];
    char msg[4000];
    char prefix[40];        // of cls
    u64 hash, steps, switches, preempts, points_hash, draws, hooks;
    i64 vtime;
    int nthreads;
    int ncounters;
    Counter counters[200];
    u64 nstates;
    u64 states[4096];
    u64 nrec;                // recorded choices (u64 words)
    u64 logn;
    int crash_frames;
    char crash[6000];
};
}
#endif
