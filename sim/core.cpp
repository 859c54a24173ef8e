// Scheduler, clock, choice streams; wrapped pthread and time functions.
#include "core.hpp"
#include "race.hpp"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/times.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <set>

namespace sim { extern bool g_proxy_exited; void point_signals(); }
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *,
                          void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *,
                                  const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_nanosleep(const struct timespec *, struct timespec *);
unsigned __real_sleep(unsigned);
pid_t __real_getpid(void);
int __real___cxa_guard_acquire(int64_t *);
void __real___cxa_guard_release(int64_t *);
void __real___cxa_guard_abort(int64_t *);
int __real_sched_yield(void);
clock_t __real_times(struct tms *);
}

namespace sim {
Knobs K;
Result *R;
u64 g_seed;
bool g_replay;           // choices come from the file only
bool g_verbose;
static u64 *rec_buf;     // shared record buffer
static size_t rec_cap;
std::unordered_map<u64, unsigned> replay_draw;   // key -> value
std::unordered_map<u64, int> replay_sched;       // key -> target tid
std::unordered_map<u64, std::vector<u64>> replay_preempt; // tid -> counts
std::set<std::pair<unsigned, unsigned>> skip_ops;

u64 mix(u64 a, u64 b)
{
    u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    x ^= x >> 31;
    return x;
}
u64 hash_str(const std::string &s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

enum TState { T_RUN, T_BLOCK, T_DONE };
struct Thr {
    u64 hooks = 0;
    u64 next_preempt = ~0ull;
    int nopreempt = 0;
    int id = -1;
    unsigned actor = 0;
    bool env = false;
    TState state = T_RUN;
    std::atomic<int> go{0};
    pthread_t pt;
    bool has_pt = false;
    Thr *must_join = 0;
    const std::function<bool()> *pred = 0;
    i64 deadline = -1;
    i64 stall_until = 0;
    const char *what = "";
    u64 eval_at = ~0ull;
    bool eval_res = false;
    u64 npoint = 0, nblock = 0;
    u64 run_len = 0;
    int prio = 0;
    std::string name;
    void *(*start)(void *) = 0;
    void *arg = 0;
    std::function<void()> fn;
    bool detached = false, joined = false;
    u64 last_point_hooks = 0;
    std::map<int, u64> draw_idx;
    int child_proc = 0;
};
static Thr g_dummy;
static __thread Thr *self __attribute__((tls_model("initial-exec"))) = 0;
static std::vector<Thr *> threads;
static i64 g_now = 0;
static u64 g_dirty = 1;
static u64 g_steps = 0;
static u64 g_seq = 0;
static u64 pct_next_change = 0;
static int pct_low = 0;
static bool g_running = false;
static pthread_key_t exit_key;

struct Ev { i64 t; u64 seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const
    { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;

bool in_sim() { return self != 0 && g_running; }
bool verbose() { return g_verbose; }
i64 now() { return g_now; }
int self_id() { return self ? self->id : -1; }
unsigned self_actor() { return self ? self->actor : 0; }
int *self_child_proc() { return &self->child_proc; }
void dirty() { g_dirty++; }
static inline void hash_in(u64 v) { R->hash = mix(R->hash, v); }
void nopreempt_add(int n) { self->nopreempt += n; }
NoPreempt::NoPreempt() { if (self) self->nopreempt++; }
NoPreempt::~NoPreempt() { if (self) self->nopreempt--; }

// ----------------------------------------------------------------- record
void set_rec_buf(u64 *b, size_t cap) { rec_buf = b; rec_cap = cap; }
static void rec(u64 a, u64 b, u64 c)
{
    if (R->nrec + 3 <= rec_cap)
    {
        rec_buf[R->nrec++] = a;
        rec_buf[R->nrec++] = b;
        rec_buf[R->nrec++] = c;
    }
}
// record kinds
enum { RK_DRAW = 1, RK_SCHED = 2, RK_PREEMPT = 3 };

static u64 draw_key(ChStream s, unsigned actor, u64 idx)
{
    return ((u64) s << 56) | ((u64) (actor & 0xffffff) << 32) | (idx & 0xffffffff);
}
// counters per (stream, actor)
static std::unordered_map<u64, u64> draw_counters;
static u64 next_idx(ChStream s, unsigned actor)
{
    return draw_counters[((u64) s << 32) | actor]++;
}
static unsigned settle(ChStream s, unsigned actor, u64 idx, unsigned v)
{
    u64 key = draw_key(s, actor, idx);
    if (g_replay)
    {
        auto it = replay_draw.find(key);
        v = it == replay_draw.end() ? 0 : it->second;
    }
    if (v)
        rec(RK_DRAW, key, v);
    R->draws++;
    return v;
}
static u64 raw(ChStream s, unsigned actor, u64 idx)
{
    return mix(mix(g_seed * 131 + s, actor), idx);
}
unsigned draw_a(ChStream s, unsigned actor, unsigned n)
{
    if (n <= 1)
        return 0;
    NoPreempt np;
    u64 idx = next_idx(s, actor);
    unsigned v = settle(s, actor, idx, (unsigned) (raw(s, actor, idx) % n));
    return v < n ? v : n - 1;
}
bool chance_a(ChStream s, unsigned actor, unsigned num, unsigned den)
{
    if (!num || !den)
        return false;
    NoPreempt np;
    u64 idx = next_idx(s, actor);
    return settle(s, actor, idx, raw(s, actor, idx) % den < num) != 0;
}
unsigned draw(ChStream s, unsigned n) { return draw_a(s, self_actor(), n); }
bool chance(ChStream s, unsigned num, unsigned den)
{ return chance_a(s, self_actor(), num, den); }
bool op_skipped(unsigned actor, unsigned op)
{ return skip_ops.count(std::make_pair(actor, op)) > 0; }

// ---------------------------------------------------------------- results
void count(const char *name, u64 n)
{
    for (int i = 0; i < R->ncounters; i++)
        if (!strcmp(R->counters[i].name, name))
        {
            R->counters[i].n += n;
            return;
        }
    if (R->ncounters < 200)
    {
        Counter &c = R->counters[R->ncounters++];
        strncpy(c.name, name, sizeof(c.name) - 1);
        c.n = n;
    }
}
void state_mark(u64 h)
{
    u64 i = h % 4096;
    for (int k = 0; k < 64; k++, i = (i + 1) % 4096)
    {
        if (R->states[i] == h)
            return;
        if (!R->states[i])
        {
            R->states[i] = h ? h : 1;
            R->nstates++;
            return;
        }
    }
}
void log(const char *fmt, ...)
{
    NoPreempt np;
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
    R->hash = mix(R->hash, hash_str(std::string(buf, n)));
    R->logn++;
    if (g_verbose)
    {
        fprintf(stderr, "%10.6f t%02d %s\n", (double) g_now / 1e6,
                self_id(), buf);
    }
}
static void seal(int status)
{
    R->steps = g_steps;
    R->vtime = g_now;
    R->nthreads = (int) threads.size();
    u64 h = 0;
    for (auto t : threads)
        h += t->hooks;
    R->hooks = h;
    R->status = status;
}
void class_prefix(const char *p)
{
    snprintf(R->prefix, sizeof R->prefix, "%s", p);
}
void violation(const char *cls, const char *fmt, ...)
{
    if (self) self->nopreempt++;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    strncpy(R->cls, cls, sizeof R->cls - 1);
    if (g_verbose)
        fprintf(stderr, "%10.6f t%02d VIOLATION %s: %s\n",
                (double) g_now / 1e6, self_id(), R->cls, R->msg);
    if (g_verbose)
        fprintf(stderr, "threads:%s\n", threads_dump().c_str());
    seal(2);
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void finish()
{
    if (self) self->nopreempt++;
    seal(1);
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void seal_crash() { seal(2); }

// -------------------------------------------------------------- scheduler
static void fwait(std::atomic<int> *a)
{
    while (a->load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int *) a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    a->store(0, std::memory_order_relaxed);
}
static void fpost(std::atomic<int> *a)
{
    a->store(1, std::memory_order_release);
    syscall(SYS_futex, (int *) a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void resumed()
{
    if (self->must_join)
    {
        Thr *t = self->must_join;
        self->must_join = 0;
        __real_pthread_join(t->pt, 0);
        t->has_pt = false;
    }
}
static void run_events()
{
    while (!evq.empty() && evq.top()->t <= g_now)
    {
        Ev *e = evq.top();
        evq.pop();
        e->fn();
        delete e;
        g_dirty++;
    }
}
void at(i64 when, std::function<void()> fn)
{
    NoPreempt np;
    Ev *e = new Ev;
    e->t = when < g_now ? g_now : when;
    e->seq = g_seq++;
    e->fn = fn;
    evq.push(e);
}
static bool runnable(Thr *t)
{
    if (t->state == T_DONE || t->stall_until > g_now ||
        (g_proxy_exited && !t->env))
        return false;
    if (t->state == T_RUN)
        return true;
    if (t->deadline >= 0 && t->deadline <= g_now)
        return true;
    if (t->eval_at != g_dirty)
    {
        t->eval_at = g_dirty;
        t->eval_res = t->pred ? (*t->pred)() : false;
    }
    return t->eval_res;
}
static std::string dump_threads()
{
    std::string s;
    for (auto t : threads)
        if (t->state != T_DONE)
        {
            char b[200];
            snprintf(b, sizeof b, " t%d(%s):%s", t->id, t->name.c_str(),
                     t->state == T_RUN ? "run" : t->what);
            s += b;
        }
    return s;
}
std::function<void()> g_on_deadlock;
static std::vector<Thr *> rl;
static void collect(Thr *except)
{
    rl.clear();
    for (auto t : threads)
        if (t != except && runnable(t))
            rl.push_back(t);
}
static void idle_advance()
{
    i64 next = -1;
    if (!evq.empty())
        next = evq.top()->t;
    for (auto t : threads)
    {
        if (t->state == T_DONE || (g_proxy_exited && !t->env))
            continue;
        i64 d = -1;
        if (t->stall_until > g_now)
            d = t->stall_until;
        else if (t->state == T_BLOCK && t->deadline >= 0)
            d = t->deadline;
        if (d >= 0 && (next < 0 || d < next))
            next = d;
    }
    if (next < 0)
    {
        if (g_on_deadlock)
            g_on_deadlock();
        violation("deadlock", "no thread can run:%s", dump_threads().c_str());
    }
    if (next > g_now)
        g_now = next;
    if (g_now > K.max_time)
        violation("no-progress", "simulated time limit:%s",
                  dump_threads().c_str());
    g_dirty++;
    run_events();
}
static u64 sched_key(int kind, int tid, u64 cnt)
{
    return ((u64) kind << 60) | ((u64) (tid & 0xffff) << 40) | (cnt & 0xffffffffffull);
}
static Thr *by_prio()
{
    Thr *b = rl[0];
    for (auto t : rl)
        if (t->prio > b->prio)
            b = t;
    return b;
}
// kind: 0 point, 1 block
static Thr *decide(int kind, u64 cnt)
{
    // rl: candidates. For kind 0 rl contains self as well.
    Thr *def = 0;
    if (kind == 0)
        def = self;
    else
    {
        for (auto t : rl)
            if (t->id > self->id)
            {
                def = t;
                break;
            }
        if (!def)
            def = rl[0];
    }
    Thr *t = def;
    if (g_replay)
    {
        auto it = replay_sched.find(sched_key(kind, self->id, cnt));
        if (it != replay_sched.end())
            for (auto c : rl)
                if (c->id == it->second)
                    t = c;
    }
    else if (K.pct)
        t = by_prio();
    else
    {
        u64 r = mix(mix(g_seed ^ 0x5ced, self->id * 2 + kind), cnt);
        if (kind == 1)
            t = rl[r % rl.size()];
        else if (K.point_den && r % K.point_den == 0)
            t = rl[(r >> 20) % rl.size()];
    }
    if (t != def)
        rec(RK_SCHED, sched_key(kind, self->id, cnt), t->id);
    return t;
}
static void switch_to(Thr *t)
{
    if (t == self)
    {
        return;
    }
    R->switches++;
    hash_in(0x51 + t->id);
    R->points_hash = mix(R->points_hash, ((u64) t->id << 32) ^ self->npoint);
    g_now += 3;
    if (self->env)
        g_dirty++;
    t->run_len = 0;
    Thr *me = self;
    bool done = me->state == T_DONE;
    if (done)
        t->must_join = me;
    fpost(&t->go);
    if (done)
        return;
    fwait(&me->go);
    resumed();
}
static void step_check()
{
    if (++g_steps > K.max_steps)
        violation("livelock", "step limit:%s", dump_threads().c_str());
}
static void pct_tick()
{
    if (K.pct && g_steps >= pct_next_change)
    {
        self->prio = --pct_low;
        pct_next_change = g_steps + 1 + mix(g_seed ^ 0x9c7, g_steps) %
            (1 + (u64) K.point_den * 60);
    }
}
void point(const char *what)
{
    if (!self || !g_running || self->nopreempt || self->state == T_DONE)
        return;
    NoPreempt np;   // parts of the C++ library are shared with instrumented code
    step_check();
    g_now += 1;
    u64 cnt = self->npoint++;
    self->last_point_hooks = self->hooks;
    run_events();
    if (K.stall_den && !self->env && chance(ST_SYNC, 1, K.stall_den))
    {
        self->stall_until = g_now + 1000 * (1 + draw(ST_SYNC, K.stall_max_ms));
        count("fault.thread_stall");
        block("stall", [] { return true; }, -1);
        return;
    }
    if (!self->env)
        point_signals();
    pct_tick();
    collect(0);
    if (rl.size() > 1)
    {
        Thr *t = decide(0, cnt);
        if (t == self && ++self->run_len > 20000)
            for (auto c : rl)   // forced fairness
                if (c != self)
                {
                    t = c;
                    break;
                }
        switch_to(t);
    }
}
bool block(const char *what, const std::function<bool()> &pred, i64 deadline)
{
    if (!self || !g_running)
        return pred();
    NoPreempt np;
    step_check();
    run_events();
    self->state = T_BLOCK;
    self->pred = &pred;
    self->deadline = deadline;
    self->what = what;
    self->eval_at = ~0ull;
    self->last_point_hooks = self->hooks;
    u64 cnt = self->nblock++;
    bool ok;
    for (;;)
    {
        for (;;)
        {
            collect(0);
            if (!rl.empty())
                break;
            idle_advance();
        }
        Thr *t;
        if (rl.size() == 1)
            t = rl[0];
        else
            t = decide(1, cnt);
        switch_to(t);
        ok = pred();
        if (ok || (deadline >= 0 && g_now >= deadline))
            break;
        // the cached answer was stale: someone else was faster
        step_check();
        self->eval_at = ~0ull;
        cnt = self->nblock++;
    }
    self->state = T_RUN;
    self->pred = 0;
    self->deadline = -1;
    self->what = "";
    return ok;
}
void sleep_us(i64 us)
{
    i64 d = g_now + us;
    block("sleep", [] { return false; }, d);
}
static void thread_done()
{
    self->state = T_DONE;
    self->nopreempt++;
    g_dirty++;
    g_steps++;
    hash_in(0xd0 + self->id);
    for (;;)
    {
        collect(0);
        if (!rl.empty())
            break;
        idle_advance();
    }
    Thr *t = rl.size() == 1 ? rl[0] : decide(1, self->nblock++);
    Thr *me = self;
    (void) me;
    switch_to(t);
}
static void exit_dtor(void *p)
{
    // re-armed so that the other keys' destructors have run before
    u64 n = (u64) (uintptr_t) p;
    if (n < 3)
    {
        pthread_setspecific(exit_key, (void *) (uintptr_t) (n + 1));
        return;
    }
    if (self && g_running)
    {
        race_thread_end();
        thread_done();
        self = 0;
    }
}
static void arm_preempt(Thr *t)
{
    if (g_replay)
    {
        auto it = replay_preempt.find(t->id);
        t->next_preempt = ~0ull;
        if (it != replay_preempt.end())
            for (u64 c : it->second)
                if (c > t->hooks && c < t->next_preempt)
                    t->next_preempt = c;
    }
    else if (K.preempt_mean > 0 && !t->env)
    {
        u64 r = mix(mix(g_seed ^ 0x7e11, t->id), t->hooks);
        // roughly geometric: uniform over [1, 2*mean) scaled by a power of 2
        u64 gap = 1 + r % (2 * (u64) K.preempt_mean);
        if ((r >> 40) % 4 == 0)
            gap = 1 + gap / 16;
        t->next_preempt = t->hooks + gap;
    }
    else
        t->next_preempt = ~0ull;
    u64 hang = t->last_point_hooks + 60000000ull;
    if (t->next_preempt > hang)
        t->next_preempt = hang;
}
static void *tramp(void *p)
{
    Thr *t = (Thr *) p;
    self = t;
    fwait(&t->go);
    resumed();
    pthread_setspecific(exit_key, (void *) (uintptr_t) 1);
    arm_preempt(t);
    if (!t->env)
        race_thread_begin(t->id, -1);
    void *r = 0;
    if (t->start)
        r = t->start(t->arg);
    else
        t->fn();
    t->nopreempt++;
    return r;
}
static Thr *new_thr(bool env, unsigned actor, const char *name)
{
    Thr *t = new Thr;
    t->id = (int) threads.size();
    t->env = env;
    t->actor = actor;
    t->name = name;
    t->prio = (int) (mix(g_seed ^ 0x9919, t->id) % 1000) + 1;
    threads.push_back(t);
    return t;
}
static int start_thr(Thr *t)
{
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, t->env ? 1 << 20 : 4 << 20);
    int r = __real_pthread_create(&t->pt, &a, tramp, t);
    pthread_attr_destroy(&a);
    t->has_pt = true;
    if (r)
        violation("harness", "pthread_create failed");
    return r;
}
int spawn(const char *name, std::function<void()> fn, unsigned actor)
{
    NoPreempt np;
    Thr *t = new_thr(true, actor, name);
    t->fn = fn;
    start_thr(t);
    g_dirty++;
    return t->id;
}
int thread_id() { return self ? self->id : -1; }
bool finished(int tid) { return threads[tid]->state == T_DONE; }
void join(int tid)
{
    block("join", [tid] { return threads[tid]->state == T_DONE; }, -1);
}
void run_main(std::function<void()> fn)
{
    pthread_key_create(&exit_key, exit_dtor);
    Thr *t = new_thr(true, 1, "director");
    self = t;
    g_running = true;
    fn();
    finish();
}
void proxy_thread_begin(const char *name)
{   // mark the calling sim thread as running code under test
    self->env = false;
    self->name = name;
    arm_preempt(self);
    race_thread_begin(self->id, -1);
}
[[noreturn]] void thread_halt()
{
    block("halted", [] { return false; }, -1);
    violation("harness", "halted thread resumed");
}

void hook_slow()
{
    Thr *t = self;
    if (!t || !g_running)
    {
        g_dummy.next_preempt = ~0ull;
        return;
    }
    if (t->hooks - t->last_point_hooks >= 60000000ull)
        violation("cpu-hang", "thread t%d(%s) loops without blocking",
                  t->id, t->name.c_str());
    if (t->nopreempt || t->env || t->state != T_RUN)
    {
        if (g_replay)
            arm_preempt(t);
        else
            t->next_preempt = t->hooks + 7;
        return;
    }
    u64 at_hook = t->hooks;
    t->nopreempt++;
    collect(t);
    Thr *next = 0;
    if (!rl.empty())
    {
        if (g_replay)
        {
            auto it = replay_sched.find(sched_key(2, t->id, at_hook));
            if (it != replay_sched.end())
                for (auto c : rl)
                    if (c->id == it->second)
                        next = c;
        }
        else
        {
            u64 r = mix(mix(g_seed ^ 0xbee, t->id), at_hook);
            if (K.pct)
            {
                if (r % 8 == 0)
                    t->prio = --pct_low;
                Thr *b = by_prio();
                if (b->prio > t->prio)
                    next = b;
            }
            else
                next = rl[r % rl.size()];
        }
    }
    if (next)
    {
        step_check();
        g_now += 1;
        rec(RK_SCHED, sched_key(2, t->id, at_hook), next->id);
        R->preempts++;
        hash_in(0x9e + at_hook);
        t->npoint++;
        switch_to(next);
    }
    t->nopreempt--;
    arm_preempt(t);
}
void load_preempts()
{
    for (auto &p : replay_sched)
        if ((p.first >> 60) == 2)
            replay_preempt[(p.first >> 40) & 0xffff].push_back(
                p.first & 0xffffffffffull);
}
unsigned char *g_cov;     // shared edge bitmap
size_t g_cov_n;

void swarm_sched()
{
    static const int dens[] = { 8, 2, 3, 5, 20, 100 };
    K.point_den = dens[draw(ST_KNOB, 6)];
    static const int pre[] = { 0, 20000, 5000, 1500, 400, 120, 40 };
    K.preempt_mean = pre[draw(ST_KNOB, 7)];
    K.pct = chance(ST_KNOB, 1, 4);
    pct_next_change = 50;
    if (chance(ST_KNOB, 1, 4))
        K.spurious_den = 20;
    if (chance(ST_KNOB, 1, 5))
    {
        K.stall_den = 300;
        K.stall_max_ms = 1 + draw(ST_KNOB, 3) * 40;
    }
}
void swarm_net()
{
    static const i64 lm[] = { 100, 1000, 10 * MS, 80 * MS, 400 * MS };
    K.lat_min = 50;
    K.lat_max = lm[draw(ST_KNOB, 5)];
    if (chance(ST_KNOB, 1, 2))
        K.short_read_den = 2 + 8 * draw(ST_KNOB, 2);
    if (chance(ST_KNOB, 1, 2))
        K.short_write_den = 2 + 8 * draw(ST_KNOB, 2);
    if (chance(ST_KNOB, 1, 2))
        K.split_den = 2 + 4 * draw(ST_KNOB, 2);
    static const size_t caps[] = { 65536, 16384, 2048, 300 };
    K.pipe_cap = caps[draw(ST_KNOB, 4)];
}

// ------------------------------------------------------------- sync model
struct Mtx { int owner = -1; int depth = 0; bool recursive = false; };
struct Cnd { std::vector<int> waiters; int clock = CLOCK_REALTIME; };
static std::unordered_map<void *, Mtx> &mtxs_()
{
    static std::unordered_map<void *, Mtx> *p;
    if (!p)
        p = new std::unordered_map<void *, Mtx>;
    return *p;
}
#define mtxs mtxs_()
static std::unordered_map<void *, Cnd> &cnds_()
{
    static std::unordered_map<void *, Cnd> *p;
    if (!p)
        p = new std::unordered_map<void *, Cnd>;
    return *p;
}
#define cnds cnds_()
struct Guard { bool busy = false; };
static std::unordered_map<void *, Guard> &guards_()
{
    static std::unordered_map<void *, Guard> *p;
    if (!p)
        p = new std::unordered_map<void *, Guard>;
    return *p;
}
#define guards guards_()
static std::unordered_map<void *, int> &onces_()
{
    static std::unordered_map<void *, int> *p;
    if (!p)
        p = new std::unordered_map<void *, int>;
    return *p;
}
#define onces onces_()
struct Rw { int writer = -1; int readers = 0; };
static std::unordered_map<void *, Rw> &rws_()
{
    static std::unordered_map<void *, Rw> *p;
    if (!p)
        p = new std::unordered_map<void *, Rw>;
    return *p;
}
#define rws rws_()

static Mtx &mtx(void *m)
{
    return mtxs[m];
}
static void mlock(pthread_mutex_t *m)
{
    Mtx *x = &mtx(m);
    if (x->owner == self->id && x->recursive)
    {
        x->depth++;
        return;
    }
    if (x->owner != -1)
    {
        count("probe.mutex_contended");
        block("mutex", [m] { return mtx(m).owner == -1; }, -1);
        x = &mtx(m);
    }
    x->owner = self->id;
    x->depth = 1;
    race_acquire(m);
}
static void munlock(pthread_mutex_t *m)
{
    Mtx &x = mtx(m);
    if (x.depth > 1)
    {
        x.depth--;
        return;
    }
    x.owner = -1;
    x.depth = 0;
    g_dirty++;
    race_release(m);
}
bool any_blocked_on_mutex() {
    for (auto t : threads)
        if (t->state == T_BLOCK && !strcmp(t->what, "mutex"))
            return true;
    return false;
}
int live_proxy_threads()
{
    int n = 0;
    for (auto t : threads)
        if (!t->env && t->state != T_DONE)
            n++;
    return n;
}
std::string threads_dump() { return dump_threads(); }
static i64 ts_to_sim(const struct timespec *ts, int clock)
{
    i64 t = (i64) ts->tv_sec * SEC + (ts->tv_nsec + 999) / 1000;
    i64 base = clock == CLOCK_REALTIME ? WALL_BASE * SEC + K.wall_off
        : MONO_BASE * SEC;
    t -= base;
    return t < 0 ? 0 : t;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline)
{
    point("cond_wait");
    NoPreempt np;
    int me = self->id;
    cnds[c].waiters.push_back(me);
    int depth = mtx(m).depth;
    mtx(m).depth = 1;
    munlock(m);
    i64 dl = deadline;
    bool spurious = false;
    if (K.spurious_den && chance(ST_SYNC, 1, K.spurious_den))
    {
        i64 s = g_now + 1 + draw(ST_SYNC, 2000000);
        if (dl < 0 || s < dl)
        {
            dl = s;
            spurious = true;
        }
    }
    auto waiting = [c, me] {
        auto &w = cnds[c].waiters;
        return std::find(w.begin(), w.end(), me) != w.end();
    };
    bool ok = block("cond", [&] { return !waiting(); }, dl);
    if (!ok)
    {
        auto &w = cnds[c].waiters;
        w.erase(std::remove(w.begin(), w.end(), me), w.end());
        if (spurious)
            count("fault.spurious_wakeup");
    }
    mlock(m);
    mtx(m).depth = depth;
    return ok || spurious ? 0 : ETIMEDOUT;
}
}

#define HOOK() do { Thr *t_ = self; if (t_ && ++t_->hooks >= t_->next_preempt) hook_slow(); } while (0)
namespace sim { void mem_hook() { HOOK(); } }
using namespace sim;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    static uint32_t n = 0;
    if (start == stop || *start)
        return;
    for (uint32_t *x = start; x < stop; x++)
        *x = ++n;
    g_cov_n = n + 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
    if (g_cov)
        g_cov[*guard] = 1;
    HOOK();
}
#define LS(n) \
void __sanitizer_cov_load##n(void *) { HOOK(); } \
void __sanitizer_cov_store##n(void *) { HOOK(); }
LS(1) LS(2) LS(4) LS(8) LS(16)

// The real handle of an ended thread may come back while the code under test
// has not joined it yet; it gets handles of our own.
static const pthread_t HANDLE = (pthread_t) 0x51d0000000000000ull;
static pthread_t handle(Thr *n) { return HANDLE + n->id; }
static Thr *find_pt(pthread_t t)
{
    size_t i = t - HANDLE;
    if (t < HANDLE || i >= threads.size() || !threads[i]->start ||
        threads[i]->joined)
        return 0;
    return threads[i];
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a,
                          void *(*fn)(void *), void *arg)
{
    if (!in_sim())
        return __real_pthread_create(t, a, fn, arg);
    point("pthread_create");
    if (K.thread_fail_den && chance(ST_FAULT, 1, K.thread_fail_den))
    {
        count("fault.thread_create");
        return EAGAIN;
    }
    {
        NoPreempt np;
        Thr *n = new_thr(false, 0, "");
        n->actor = 5000 + n->id;
        char nm[20];
        snprintf(nm, sizeof nm, "w%d", n->id);
        n->name = nm;
        n->start = fn;
        n->arg = arg;
        race_fork(n->id);
        start_thr(n);
        *t = handle(n);
        g_dirty++;
    }
    point("pthread_created");
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret)
{
    if (!in_sim())
        return __real_pthread_join(t, ret);
    point("pthread_join");
    Thr *x = find_pt(t);
    if (!x)
        return ESRCH;
    x->joined = true;
    block("join", [x] { return x->state == T_DONE; }, -1);
    race_join(x->id);
    if (ret)
        *ret = 0;
    return 0;
}
int __wrap_pthread_detach(pthread_t t)
{
    if (!in_sim())
        return __real_pthread_detach(t);
    Thr *x = find_pt(t);
    if (x)
        x->joined = x->detached = true;
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    int r = __real_pthread_mutex_init(m, a);
    NoPreempt np;
    if (g_running)
        mtxs.erase(m);
    race_forget(m);
    int type = 0;
    if (a)
        pthread_mutexattr_gettype(a, &type);
    if (type == PTHREAD_MUTEX_RECURSIVE)
        mtxs[m].recursive = true;
    return r;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (in_sim())
    {
        NoPreempt np;
        auto it = mtxs.find(m);
        if (it != mtxs.end())
        {
            if (it->second.owner != -1)
                return EBUSY;
            mtxs.erase(it);
        }
        return 0;
    }
    return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!in_sim())
        return __real_pthread_mutex_lock(m);
    point("lock");
    NoPreempt np;
    mlock(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!in_sim())
        return __real_pthread_mutex_trylock(m);
    point("trylock");
    NoPreempt np;
    Mtx &x = mtx(m);
    if (x.owner != -1 && !(x.recursive && x.owner == self->id))
        return EBUSY;
    mlock(m);
    return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    if (!in_sim())
        return __real_pthread_mutex_lock(m);
    point("timedlock");
    NoPreempt np;
    if (mtx(m).owner != -1 &&
        !block("mutex", [m] { return mtx(m).owner == -1; },
               ts_to_sim(ts, CLOCK_REALTIME)))
        return ETIMEDOUT;
    mlock(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!in_sim())
        return __real_pthread_mutex_unlock(m);
    {
        NoPreempt np;
        Mtx &x = mtx(m);
        if (x.owner != self->id)
        {
            count("probe.unlock_not_owner");
            return EPERM;
        }
        munlock(m);
    }
    point("unlock");
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
    int r = __real_pthread_cond_init(c, a);
    NoPreempt np;
    cnds.erase(c);
    clockid_t ck = CLOCK_REALTIME;
    if (a)
        pthread_condattr_getclock(a, &ck);
    cnds[c].clock = ck;
    return r;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
    if (in_sim())
    {
        NoPreempt np;
        cnds.erase(c);
        return 0;
    }
    return __real_pthread_cond_destroy(c);
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!in_sim())
        return __real_pthread_cond_wait(c, m);
    return cwait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  const struct timespec *ts)
{
    if (!in_sim())
        return __real_pthread_cond_timedwait(c, m, ts);
    return cwait(c, m, ts_to_sim(ts, cnds[c].clock));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  clockid_t clk, const struct timespec *ts)
{
    if (!in_sim())
        return __real_pthread_cond_timedwait(c, m, ts);
    return cwait(c, m, ts_to_sim(ts, clk));
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    if (!in_sim())
        return __real_pthread_cond_signal(c);
    {
        NoPreempt np;
        auto &w = cnds[c].waiters;
        if (!w.empty())
        {
            unsigned i = draw(ST_SYNC, (unsigned) w.size());
            w.erase(w.begin() + i);
            g_dirty++;
        }
    }
    point("signal");
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!in_sim())
        return __real_pthread_cond_broadcast(c);
    {
        NoPreempt np;
        cnds[c].waiters.clear();
        g_dirty++;
    }
    point("broadcast");
    return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *)
{ NoPreempt np; rws.erase(l); memset(l, 0, sizeof *l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l)
{ NoPreempt np; rws.erase(l); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    if (!in_sim()) return 0;
    point("rdlock");
    NoPreempt np;
    if (rws[l].writer != -1)
        block("rwlock", [l] { return rws[l].writer == -1; }, -1);
    rws[l].readers++;
    race_acquire(l);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    if (!in_sim()) return 0;
    point("wrlock");
    NoPreempt np;
    auto ok = [l] { Rw &r = rws[l]; return r.writer == -1 && !r.readers; };
    if (!ok())
        block("rwlock", ok, -1);
    rws[l].writer = self->id;
    race_acquire(l);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!in_sim()) return 0;
    {
        NoPreempt np;
        Rw &r = rws[l];
        if (r.writer == self->id)
            r.writer = -1;
        else
            r.readers--;
        g_dirty++;
        race_release(l);
    }
    point("rwunlock");
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void))
{
    NoPreempt np;
    int &s = onces[o];
    if (!s)
    {
        s = 1;
        fn();
        race_release(o);
    }
    race_acquire(o);
    return 0;
}
// Function-local statics: first byte of the guard says "initialised".
int __wrap___cxa_guard_acquire(int64_t *g)
{
    if (!in_sim())
        return __real___cxa_guard_acquire(g);
    if (*(volatile char *) g)
    {
        race_acquire(g);
        return 0;
    }
    NoPreempt np;
    if (guards[g].busy)
        block("guard", [g] { return !guards[g].busy; }, -1);
    race_acquire(g);
    if (*(volatile char *) g)
        return 0;
    guards[g].busy = true;
    return 1;
}
void __wrap___cxa_guard_release(int64_t *g)
{
    if (!in_sim())
    {
        __real___cxa_guard_release(g);
        return;
    }
    NoPreempt np;
    race_release(g);
    *(char *) g = 1;
    guards[g].busy = false;
    g_dirty++;
}
void __wrap___cxa_guard_abort(int64_t *g)
{
    if (!in_sim())
    {
        __real___cxa_guard_abort(g);
        return;
    }
    NoPreempt np;
    guards[g].busy = false;
    g_dirty++;
}
int __wrap_sched_yield(void)
{
    if (!in_sim())
        return __real_sched_yield();
    point("yield");
    return 0;
}
time_t __wrap_time(time_t *p)
{
    if (!in_sim())
        return __real_time(p);
    time_t t = (time_t) (WALL_BASE + (g_now + K.wall_off) / SEC);
    if (p)
        *p = t;
    return t;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!in_sim())
        return __real_gettimeofday(tv, tz);
    i64 n = WALL_BASE * SEC + g_now + K.wall_off;
    tv->tv_sec = n / SEC;
    tv->tv_usec = n % SEC;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!in_sim())
        return __real_clock_gettime(c, ts);
    i64 n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ?
        WALL_BASE * SEC + g_now + K.wall_off : MONO_BASE * SEC + g_now;
    ts->tv_sec = n / SEC;
    ts->tv_nsec = (n % SEC) * 1000;
    return 0;
}
clock_t __wrap_times(struct tms *b)
{
    if (!in_sim())
        return __real_times(b);
    if (b)
        memset(b, 0, sizeof *b);
    return (clock_t) (g_now / 10000);
}
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (!in_sim())
        return __real_nanosleep(ts, rem);
    sleep_us(ts->tv_sec * SEC + ts->tv_nsec / 1000);
    return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec *ts,
                           struct timespec *)
{
    i64 d = ts->tv_sec * SEC + ts->tv_nsec / 1000;
    if (flags)
        d = ts_to_sim(ts, c) - g_now;
    if (d > 0)
        sleep_us(d);
    return 0;
}
unsigned __wrap_sleep(unsigned s)
{
    if (!in_sim())
        return __real_sleep(s);
    sleep_us((i64) s * SEC);
    return 0;
}
int __wrap_usleep(unsigned us)
{
    sleep_us(us);
    return 0;
}
pid_t __wrap_getpid(void)
{
    if (!in_sim())
        return __real_getpid();
    return 4242;
}
}
