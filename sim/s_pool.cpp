// C05: the worker pool itself, driven by an event loop of the scenario's own.
#include "zm.hpp"
#include "thread_pool_observer.hpp"
#include "pipe.hpp"
#include <yazpp/socket-manager.h>
#include <deque>
#include <set>
#include <unistd.h>
using namespace sim;
namespace mp = metaproxy_1;

namespace {
struct State {
    i64 put = -1, start = -1, end = -1, res = -1;
    int nstart = 0, nres = 0, ndel = 0, group = 0;
    bool cancelled = false, gone = false, counted = false;
    i64 by = -1;                            // taken by a worker when its group was cancelled
};
struct Job;
static std::vector<State> js;
static mp::ThreadPoolSocketObserver *pool;
static int loop_tid, min_thr, max_thr,  total_thr, active, queued;
static std::set<int> workers;
static std::set<int> left_workers;
static bool stopping_pool, pool_gone;
static i64 idle_since = -1, busy_since = -1;
static const i64 SLACK = 2 * SEC;
static long in_flight;                      // put, not yet over
static i64 work;                            // time of the jobs not over yet

// after each change: is somebody free while something is queued?
static void account()
{
    bool idle = queued > 0 && active < total_thr && !stopping_pool;
    if (idle_since >= 0 && now() - idle_since > SLACK)
        violation("idle-worker", "%d jobs waited %lld us while %d of %d workers were busy", queued,
                  (long long) (now() - idle_since), active, total_thr);
    if (!idle)
        idle_since = -1;
    else if (idle_since < 0)
        idle_since = now();
    bool busy = active >= total_thr;
    if (!busy)
        busy_since = -1;
    else if (busy_since < 0)
        busy_since = now();
}
struct Job : mp::IThreadPoolMsg {
    int id, group, chain;
    i64 dur;
    bool null_out, other_out, moved = false;
    Job(int g, i64 d, int c, bool n, bool o) : group(g), chain(c), dur(d), null_out(n), other_out(o)
    {
        id = (int) js.size();
        js.push_back(State());
        js[id].group = g;
    }
    ~Job()
    {
        if (moved)
            return;
        js[id].ndel++;
        js[id].gone = true;
    }
    mp::IThreadPoolMsg *handle();
    void result(const char *info);
    bool cleanup(void *info);
};
static void do_put(Job *j)
{
    NoPreempt np;
    int before = total_thr;
    i64 bs = busy_since;
    int id = j->id;
    js[id].put = now();
    in_flight++;
    work += j->dur;
    i64 t0 = now();
    {
        // the call itself may be interrupted anywhere
        struct Allow { Allow() { nopreempt_add(-1); } ~Allow() { nopreempt_add(1); } } a;
        pool->put(j);
    }
    if (now() > t0 + MS)
        count("probe.put_blocked");
    int b, t;
    pool->get_thread_info(b, t);
    if (t < min_thr || t > std::max(max_thr, min_thr) || t < before)
        violation("pool-size", "%d workers, allowed %d to %d", t, min_thr, max_thr);
    if (t > before)
        count("probe.grown");
    if (!K.thread_fail_den && bs >= 0 && t0 - bs > SLACK && before < max_thr && t <= before)
        violation("no-growth", "all %d workers busy since %lld us, allowed %d", before, (long long) (t0 - bs), max_thr);
    total_thr = t;
    if (js[id].start < 0)
    {
        queued++;
        js[id].counted = true;
    }
    account();
}
mp::IThreadPoolMsg *Job::handle()
{
    int tid = self_id();
    {
        NoPreempt np;
        State &s = js[id];
        if (tid == loop_tid)
            violation("wrong-thread", "job %d is run by the event loop", id);
        if (pool_gone)
            violation("after-destroy", "job %d is run after the pool is gone", id);
        if (s.cancelled)
            violation("cancelled-run", "job %d is run after it was cancelled", id);
        if (++s.nstart > 1)
            violation("run-twice", "job %d is run %d times", id, s.nstart);
        s.start = now();
        workers.insert(tid);
        if ((int) workers.size() > std::max(max_thr, min_thr))
            violation("pool-size", "%zu workers, allowed %d", workers.size(), max_thr);
        if (++active > std::max(max_thr, min_thr))
            violation("pool-size", "%d jobs at a time, allowed %d", active, max_thr);
        if (s.by >= 0 && now() > s.by)
            violation("cancel-missed", "job %d is run long after it was cancelled", id);
        if (s.counted)
            queued--;
        s.counted = false;
        account();
    }
    if (dur)
        sleep_us(dur);
    else
        point("job");
    NoPreempt np;
    js[id].end = now();
    active--;
    in_flight--;
    work -= dur;
    account();
    if (null_out)
    {
        delete this;
        return 0;
    }
    if (other_out)
    {
        Job *n = new Job(*this);
        moved = true;
        delete this;
        return n;
    }
    return this;
}
void Job::result(const char *info)
{
    {
        NoPreempt np;
        State &s = js[id];
        if (self_id() != loop_tid)
            violation("wrong-thread", "result of job %d is not delivered by the event loop", id);
        if (s.end < 0)
            violation("early-result", "result of job %d before its end", id);
        if (++s.nres > 1)
            violation("result-twice", "job %d has %d results", id, s.nres);
        s.res = now();
        int b = 0, t = 0, i = 0, o = 0;
        if (!info || sscanf(info, "tbusy/total %d/%d queue in/out %d/%d", &b, &t, &i, &o) != 4 || t < min_thr ||
            t > std::max(min_thr, max_thr) || b < 0 || b > t || i < 0 || o < 0)
            violation("wrong-info", "%s", info ? info : "none");
    }
    int c = chain, g = group;
    i64 d = dur;
    bool n = null_out;
    delete this;
    if (c > 0 && !stopping_pool)
    {
        count("probe.chained");
        do_put(new Job(g, d, c - 1, n, false));
    }
}
bool Job::cleanup(void *info)
{
    State &s = js[id];
    if (s.start >= 0)
        violation("cleanup-running", "job %d is asked about after its start", id);
    if (s.gone)
        violation("cleanup-twice", "job %d", id);
    if (*(int *) info != group)
        return false;
    s.cancelled = true;
    in_flight--;
    work -= dur;
    if (s.counted)
        queued--;
    s.counted = false;
    count("probe.cancelled");
    return true;
}
struct Cmd { int kind = 0, n = 0, group = 0; };   // 0 put, 1 cancel, 2 end
static std::deque<Cmd> cmds;
static bool loop_end, feeder_done, waiting_cmd;
static void do_cmd(const Cmd &c)
{
    if (c.kind == 0)
        for (int i = 0; i < c.n; i++)
        {
            static const i64 durs[] = { 0, 1 * MS, 100, 50 * MS, 700 * MS, 6 * SEC };
            i64 d = durs[draw_a(ST_OP, 101, c.n > 50 ? 3 : 6)];
            int chain = draw_a(ST_OP, 101, 6) == 5 ? 1 + draw_a(ST_OP, 101, 3) : 0;
            unsigned out = draw_a(ST_OP, 101, 8);
            do_put(new Job(c.group, d, chain, out == 7, out == 6));
        }
    else if (c.kind == 1)
    {
        int g = c.group;
        pool->cleanup(0, &g);
        NoPreempt np;
        int taken = 0;
        for (auto &s : js)
            if (s.group == g && s.put >= 0 && s.start < 0 && !s.cancelled)
            {   // a worker has taken it, but not come to run it yet
                taken++;
                if (s.by < 0)
                    s.by = now() + SLACK;
            }
            else if (s.cancelled && s.ndel != 1)
                violation("cancel-kept", "job %zu is not destroyed", &s - &js[0]);
        if (taken > total_thr - active)
            violation("cancel-missed", "%d jobs are still queued, %d of %d workers free", taken, total_thr - active,
                      total_thr);
        account();
        count("probe.cleanup");
    }
    else
        loop_end = true;
}
struct Feed : yazpp_1::ISocketObserver {
    mp::Pipe p;
    Feed() : p(9124) {}
    void socketNotify(int event)
    {
        if (!(event & yazpp_1::SOCKET_OBSERVE_READ))
            return;
        char b[1];
        if (read(p.read_fd(), b, 1) != 1)
            violation("harness", "feed");
        int room = 1 + draw_a(ST_OP, 102, 4);       // commands taken in one go
        while (room-- > 0 && !cmds.empty())
        {
            Cmd c = cmds.front();
            cmds.pop_front();
            do_cmd(c);
        }
        if (!cmds.empty() && write(p.write_fd(), "", 1) != 1)
            violation("harness", "feed");
    }
};
static Feed *feed;
static void post(const Cmd &c)
{
    NoPreempt np;
    cmds.push_back(c);
    if (cmds.size() == 1 && write(feed->p.write_fd(), "", 1) != 1)
        violation("harness", "feed");
}
static bool over()
{
    if (!cmds.empty() || in_flight)
        return false;
    for (auto &s : js)
        if (!s.gone)
            return false;
    return true;
}
}
SCENARIO(pool)
{
    swarm_sched();
    if (chance(ST_KNOB, 1, 2))
        K.fifo_cap = 4096;
    min_thr = 1 + draw(ST_KNOB, 5);
    max_thr = 1 + draw(ST_KNOB, 12);
    bool abrupt = chance(ST_KNOB, 1, 4);
    unsigned fail = chance(ST_KNOB, 1, 6) ? 1 + draw(ST_KNOB, 3) : 0;
    bool fail_early = fail && draw(ST_KNOB, 2);
    K.max_steps = 6000000;
    int heavy = chance(ST_KNOB, 1, 6);
    Clients cl;
    int fds0 = open_fds();
    static bool loop_done;
    cl.go(50, "loop", [=] {
        loop_tid = self_id();
        proxy_thread_begin("loop");
        yazpp_1::SocketManager mgr;
        feed = new Feed;
        mgr.addObserver(feed->p.read_fd(), feed);
        mgr.maskObserver(feed, yazpp_1::SOCKET_OBSERVE_READ);
        if (fail_early)
            K.thread_fail_den = fail;
        mp::ThreadPoolSocketObserver *np = 0;
        try
        {
            np = new mp::ThreadPoolSocketObserver(&mgr, min_thr, max_thr, 0);
        }
        catch (std::exception &e)
        {
            if (!K.thread_fail_den)
                violation("no-start", "%s", e.what());
            count("probe.no_thread_at_all");
            finish();
        }
        K.thread_fail_den = fail;
        int b, t;
        np->get_thread_info(b, t);
        if (t < 1 || t > min_thr || (!fail_early && t != min_thr))
            violation("pool-size", "%d workers at first, minimum %d", t, min_thr);
        total_thr = t;
        if (fail_early)
            min_thr = t;
        pool = np;
        dirty();
        while (!loop_end && mgr.processEvent() > 0)
            ;
        if (!loop_end)
            violation("loop-ended", "the event loop ended early");
        stopping_pool = true;
        idle_since = -1;
        i64 t0 = now();
        delete pool;
        pool_gone = true;
        if (now() - t0 > 10 * SEC + SLACK)
            violation("slow-destroy", "%lld us", (long long) (now() - t0));
        if (active)
            violation("job-left", "%d jobs run after the pool is gone", active);
        for (int w : workers)
            if (!finished(w))
                violation("worker-left", "worker t%d is alive after the pool is gone", w);
        mgr.deleteObserver(feed);
        delete feed;
        loop_done = true;
        dirty();
    });
    if (!block("pool", [] { return pool && feed; }, now() + 60 * SEC))
        violation("no-start", "pool");
    cl.go(100, "feeder", [=] {
        int nops = 3 + draw_a(ST_OP, 100, 20);
        for (int z = 0; z < nops; z++)
        {
            Cmd c;
            unsigned k = draw_a(ST_OP, 100, 8);
            c.group = draw_a(ST_OP, 100, 4);
            c.kind = k == 7 || k == 5;
            c.n = k < 4 ? 1 + k : k == 4 ? 30 : heavy && !draw_a(ST_OP, 100, 3) ? 1500 : 200;
            static const i64 gap[] = { 0, 10, 1 * MS, 20 * MS, 3 * SEC, 10 * SEC };
            i64 g = gap[draw_a(ST_OP, 100, 6)];
            if (op_skipped(100, std::min(z, 13)))
                continue;
            post(c);
            if (g)
                sleep_us(g);
        }
        if (!abrupt)
        {
            // everything already put, and what follows from it, takes its time at most
            i64 last = now();
            long seen = -1;
            while (!over())
            {
                long p = 0;
                for (auto &s : js)
                    p += (s.start >= 0) + (s.end >= 0) + (s.res >= 0) + s.gone;
                if (p != seen)
                    last = now();
                seen = p;
                if (now() - last > 30 * SEC)
                {
                    int nq = 0, nr = 0;
                    for (auto &s : js)
                    {
                        nq += s.put >= 0 && s.start < 0 && !s.gone;
                        nr += s.end >= 0 && s.res < 0 && !s.gone;
                    }
                    violation("stuck", "%d jobs not run, %d results not delivered, %zu commands left", nq, nr,
                              cmds.size());
                }
                sleep_us(SEC);
            }
            count("probe.all_done");
        }
        else
            count("probe.abrupt");
        Cmd c;
        c.kind = 2;
        post(c);
        if (!block("destroy", [] { return loop_done; }, now() + (abrupt ? 6000 : 60) * SEC))
            violation("stuck", "the pool is not destroyed");
    });
    cl.wait();
    if (open_fds() != fds0)
        violation("leak", "descriptors are still open: %s", list_fds().c_str());
}
