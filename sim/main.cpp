// Runner: forks one process per simulated run; search, replay, minimise.
#include "core.hpp"
#include "procs.hpp"
#include "scen.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <elf.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <cxxabi.h>
#include <algorithm>
#include <unordered_set>
#ifndef SIM_RACE
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#include <yaz/log.h>
#include <libxml/parser.h>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:handle_abort=1:handle_sigfpe=1:"
        "handle_sigill=1:symbolize=0:detect_stack_use_after_return=0:"
        "exitcode=99:malloc_context_size=6:quarantine_size_mb=24:"
        "thread_local_quarantine_size_kb=64:allocator_may_return_null=0:"
        "max_allocation_size_mb=1500:print_stats=0:print_legend=0:"
        "max_malloc_fill_size=100000:malloc_fill_byte=190:max_free_fill_size=100000:free_fill_byte=85:"
        "detect_odr_violation=0:verify_asan_link_order=0";
}
extern int mp_main(int argc, char **argv);
extern "C" pid_t __real_fork(void);

namespace sim {
static const size_t REC_CAP = 6000000;
static u64 *rec_shared;
static Result *res_shared;
pid_t real_waitpid(pid_t, int *);
static unsigned char *cov_shared;
std::vector<Scenario> &scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
void reg_scenario(const char *n, void (*fn)()) { scenarios().push_back({ n, fn }); }

// ------------------------------------------------------------ symbolising
struct Sym { u64 a, e; const char *name; };
static std::vector<Sym> syms;
static void load_syms()
{
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st))
        return;
    char *m = (char *) mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (m == MAP_FAILED)
        return;
    Elf64_Ehdr *eh = (Elf64_Ehdr *) m;
    Elf64_Shdr *sh = (Elf64_Shdr *) (m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; i++)
        if (sh[i].sh_type == SHT_SYMTAB)
        {
            Elf64_Sym *s = (Elf64_Sym *) (m + sh[i].sh_offset);
            const char *str = m + sh[sh[i].sh_link].sh_offset;
            size_t n = sh[i].sh_size / sizeof(*s);
            for (size_t k = 0; k < n; k++)
                if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_size)
                    syms.push_back({ s[k].st_value,
                                     s[k].st_value + s[k].st_size,
                                     str + s[k].st_name });
        }
    std::sort(syms.begin(), syms.end(),
              [](const Sym &a, const Sym &b) { return a.a < b.a; });
}
static const char *sym_at(u64 pc)
{
    auto it = std::upper_bound(syms.begin(), syms.end(), pc,
                               [](u64 p, const Sym &s) { return p < s.a; });
    if (it == syms.begin())
        return 0;
    --it;
    return pc < it->e ? it->name : 0;
}
static std::string demangle(const char *n)
{
    int st;
    char *d = abi::__cxa_demangle(n, 0, 0, &st);
    std::string s = d ? d : n;
    free(d);
    return s;
}
static std::string short_name(const char *n)
{   // without parameters and template arguments
    std::string s = demangle(n);
    std::string o;
    int depth = 0;
    for (char c : s)
    {
        if (c == '(' && !depth)
            break;
        if (c == '<')
            depth++;
        if (!depth)
            o += c;
        if (c == '>')
            depth--;
    }
    return o;
}
const char *race_sym(u64 pc) { return sym_at(pc); }
std::string race_func(u64 pc)
{
    const char *n = sym_at(pc - 1);
    return n ? short_name(n) : "?";
}
static void on_report(const char *text)
{
    strncpy(R->crash, text, sizeof R->crash - 1);
}
static void on_death()
{
    if (R->status == 2)
        return;
    // class from the report text: error kind and the first function of
    // metaproxy on the first stack
    std::string t = R->crash;
    std::string kind = "unknown";
    size_t p = t.find("AddressSanitizer: ");
    if (p != std::string::npos)
    {
        p += 18;
        size_t e = t.find_first_of(" \n:", p);
        kind = t.substr(p, e - p);
    }
    if (kind == "attempting")
        kind = t.find("double-free") != std::string::npos ? "double-free"
            : "bad-free";
    std::string where, frames;
    size_t q = 0;
    int nf = 0;
    while ((q = t.find("#", q)) != std::string::npos && nf < 24)
    {
        int idx;
        unsigned long pc;
        if (sscanf(t.c_str() + q, "#%d 0x%lx", &idx, &pc) == 2)
        {
            if (idx == 0 && nf > 0 && where.size())
                break;
            const char *n = sym_at(pc - (idx ? 1 : 0));
            if (n)
            {
                std::string sn = short_name(n);
                if (frames.size() < 3000)
                    frames += " <- " + sn;
                if (where.empty() && strstr(n, "metaproxy_1"))
                    where = sn;
            }
            nf++;
        }
        q++;
    }
    snprintf(R->cls, sizeof R->cls, "crash:%s:%s", kind.c_str(), where.c_str());
    snprintf(R->msg, sizeof R->msg, "%s in%s", kind.c_str(), frames.c_str());
    if (g_verbose)
        fprintf(stderr, "CRASH %s\n", R->msg);
    seal_crash();
}
// --------------------------------------------------------------- one run
struct Replay {
    std::string scn;
    u64 seed = 0;
    bool explicit_choices = false;
    std::vector<std::pair<u64, u64>> draws;   // key, value
    std::vector<std::pair<u64, u64>> sched;
    std::vector<std::pair<unsigned, unsigned>> skips;
    std::string cls;
};
static void child_run(const Replay &rp, bool verbose)
{
    struct rlimit rl = { 60, 70 };
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    R = res_shared;
    set_rec_buf(rec_shared, REC_CAP);
    g_cov = cov_shared;
    g_seed = rp.seed;
    g_verbose = verbose;
    g_replay = rp.explicit_choices;
    for (auto &d : rp.draws)
        replay_draw[d.first] = (unsigned) d.second;
    for (auto &d : rp.sched)
        replay_sched[d.first] = (int) d.second;
    for (auto &s : rp.skips)
        skip_ops.insert(s);
    load_preempts();
#ifndef SIM_RACE
    __asan_set_error_report_callback(on_report);
    __sanitizer_set_death_callback(on_death);
#endif
    if (!verbose)
    {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
    else
        dup2(2, 1);
    for (auto &s : scenarios())
        if (rp.scn == s.name)
        {
            run_main(s.fn);
            _exit(0);
        }
    R->status = 3;
    strcpy(R->msg, "no such scenario");
    _exit(3);
}
static int stalls; // runs started over: out of wall-clock time, or killed
static void try_run(const Replay &rp, bool verbose);
// status in res_shared
static void one_run(const Replay &rp, bool verbose)
{
    for (int i = 0; i < 3; i++)
    {
        try_run(rp, verbose);
        if (res_shared->status != 3)
            break;
        stalls++;
    }
    if (res_shared->status == 2 && res_shared->prefix[0])
    {
        std::string c = std::string(res_shared->prefix) + res_shared->cls;
        snprintf(res_shared->cls, sizeof res_shared->cls, "%s", c.c_str());
    }
}
static void try_run(const Replay &rp, bool verbose)
{
    memset((void *) res_shared, 0, sizeof(Result));
    pid_t pid = __real_fork();
    if (pid == 0)
        child_run(rp, verbose);
    int st = 0;
    struct itimerval it = { { 0, 0 }, { 50, 0 } };
    setitimer(ITIMER_REAL, &it, 0);
    bool hung = false;
    while (real_waitpid(pid, &st) < 0 && errno == EINTR)
    {
        hung = true;
        ::syscall(SYS_kill, pid, SIGKILL);
    }
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_REAL, &it, 0);
    if (hung)
    {
        res_shared->status = 3;
        strcpy(res_shared->cls, "harness:hang");
        return;
    }
    if (res_shared->status == 0)
    {
        res_shared->status = 2;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)
        {
            strcpy(res_shared->cls, "cpu-hang:native");
            strcpy(res_shared->msg, "CPU time limit of one run");
        }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        {
            res_shared->status = 3;
            strcpy(res_shared->cls, "harness:killed");
        }
        else
        {
            snprintf(res_shared->cls, 200, "crash:exit-%s-%d:",
                     WIFSIGNALED(st) ? "signal" : "code",
                     WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            strcpy(res_shared->msg, "process ended");
        }
    }
}
extern "C" int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int real_sigaction(int n, const struct sigaction *sa)
{
    return __real_sigaction(n, sa, 0);
}
pid_t real_waitpid(pid_t p, int *st)
{
    return (pid_t) ::syscall(SYS_wait4, p, st, 0, 0);
}
static void on_alarm(int) {}
static void take_choices(Replay &rp)
{
    rp.explicit_choices = true;
    rp.draws.clear();
    rp.sched.clear();
    for (u64 i = 0; i + 2 < res_shared->nrec; i += 3)
    {
        u64 k = rec_shared[i], a = rec_shared[i + 1], b = rec_shared[i + 2];
        if (k == 1)
            rp.draws.push_back({ a, b });
        else if (k == 2)
            rp.sched.push_back({ a, b });
    }
}
static void write_replay(const Replay &rp, const char *fname)
{
    FILE *f = fopen(fname, "w");
    if (!f)
    {
        perror(fname);
        exit(2);
    }
    fprintf(f, "mpsim-replay 1\nscenario %s\nseed %llu\nexplicit %d\n"
            "class %s\n", rp.scn.c_str(), (unsigned long long) rp.seed,
            rp.explicit_choices, rp.cls.c_str());
    for (auto &s : rp.skips)
        fprintf(f, "skip %u %u\n", s.first, s.second);
    for (auto &d : rp.draws)
        fprintf(f, "d %llx %llu\n", (unsigned long long) d.first,
                (unsigned long long) d.second);
    for (auto &d : rp.sched)
        fprintf(f, "s %llx %llu\n", (unsigned long long) d.first,
                (unsigned long long) d.second);
    fprintf(f, "end\n");
    fclose(f);
}
static bool read_replay(Replay &rp, const char *fname)
{
    FILE *f = fopen(fname, "r");
    if (!f)
        return false;
    char line[1000];
    while (fgets(line, sizeof line, f))
    {
        char b[900];
        unsigned long long x, y;
        unsigned u, v;
        if (sscanf(line, "scenario %800s", b) == 1)
            rp.scn = b;
        else if (sscanf(line, "seed %llu", &x) == 1)
            rp.seed = x;
        else if (sscanf(line, "explicit %u", &u) == 1)
            rp.explicit_choices = u;
        else if (sscanf(line, "class %800[^\n]", b) == 1)
            rp.cls = b;
        else if (sscanf(line, "skip %u %u", &u, &v) == 2)
            rp.skips.push_back({ u, v });
        else if (sscanf(line, "d %llx %llu", &x, &y) == 2)
            rp.draws.push_back({ x, y });
        else if (sscanf(line, "s %llx %llu", &x, &y) == 2)
            rp.sched.push_back({ x, y });
    }
    fclose(f);
    return true;
}
static double wall()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c < 32 || c > 126)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}
static void print_result(FILE *f)
{
    Result *r = res_shared;
    fprintf(f, "{\"status\":%d,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\","
            "\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,"
            "\"vtime\":%.6f,\"threads\":%d,\"draws\":%llu,\"hooks\":%llu,\"counters\":{",
            r->status, jstr(r->cls).c_str(), jstr(r->msg).c_str(),
            (unsigned long long) r->hash, (unsigned long long) r->steps,
            (unsigned long long) r->switches, (unsigned long long) r->preempts,
            r->vtime / 1e6, r->nthreads, (unsigned long long) r->draws,
            (unsigned long long) r->hooks);
    for (int i = 0; i < r->ncounters; i++)
        fprintf(f, "%s%s:%llu", i ? "," : "",
                jstr(r->counters[i].name).c_str(),
                (unsigned long long) r->counters[i].n);
    fprintf(f, "}}\n");
}
// ---------------------------------------------------------------- search
static bool match_any(const std::vector<std::string> &pats, const std::string &s)
{
    for (auto &p : pats)
        if (s.compare(0, p.size(), p) == 0)
            return true;
    return false;
}
static int cmd_search(int argc, char **argv)
{
    std::vector<std::string> scns, known;
    u64 seed0 = 1;
    int stride = 1, offset = 0;
    double tlimit = 10;
    long max_runs = 1000000000;
    const char *vio = "/tmp/vio", *covf = 0;
    int cont = 0;
    for (int i = 0; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        char *v = argv[i + 1];
        if (a == "--scn")
        {
            for (char *t = strtok(v, ","); t; t = strtok(0, ","))
                scns.push_back(t);
        }
        else if (a == "--seed0") seed0 = strtoull(v, 0, 10);
        else if (a == "--stride") stride = atoi(v);
        else if (a == "--offset") offset = atoi(v);
        else if (a == "--time") tlimit = atof(v);
        else if (a == "--runs") max_runs = atol(v);
        else if (a == "--vio") vio = v;
        else if (a == "--cov") covf = v;
        else if (a == "--known") known.push_back(v);
        else if (a == "--continue") cont = atoi(v);
    }
    double t0 = wall();
    std::unordered_set<u64> inter, states;
    std::map<std::string, u64> ctr;
    std::map<std::string, u64> ctr_runs;
    std::map<std::string, std::pair<u64, std::string>> found; // cls
    std::map<std::string, long> found_n;
    u64 steps = 0, sw = 0, pre = 0, errors = 0;
    double vt = 0;
    long runs = 0;
    std::string samples;
    std::map<std::string, u64> per_scn;
    for (long k = 0; k < max_runs && wall() - t0 < tlimit; k++)
    {
        Replay rp;
        u64 n = offset + (u64) k * stride;
        rp.scn = scns[n % scns.size()];
        rp.seed = mix(seed0, n);
        one_run(rp, false);
        Result *r = res_shared;
        runs++;
        per_scn[rp.scn]++;
        steps += r->steps;
        sw += r->switches;
        pre += r->preempts;
        vt += r->vtime / 1e6;
        inter.insert(r->points_hash);
        for (int i = 0; i < 4096; i++)
            if (r->states[i])
                states.insert(r->states[i]);
        for (int i = 0; i < r->ncounters; i++)
        {
            ctr[r->counters[i].name] += r->counters[i].n;
            ctr_runs[r->counters[i].name]++;
        }
        if (runs <= 2)
        {
            char b[300];
            snprintf(b, sizeof b, "%s{\"scenario\":\"%s\",\"seed\":%llu,"
                     "\"steps\":%llu,\"threads\":%d,\"vtime_s\":%.3f,"
                     "\"hash\":\"%016llx\"}", samples.size() ? "," : "",
                     rp.scn.c_str(), (unsigned long long) rp.seed,
                     (unsigned long long) r->steps, r->nthreads,
                     r->vtime / 1e6, (unsigned long long) r->hash);
            samples += b;
        }
        if (r->status == 3)
            errors++;
        if (r->status == 2)
        {
            std::string cls = r->cls;
            found_n[cls]++;
            if (!found.count(cls))
            {
                rp.cls = cls;
                take_choices(rp);
                char fn[500];
                snprintf(fn, sizeof fn, "%s.%d.%d", vio, offset,
                         (int) found.size());
                write_replay(rp, fn);
                found[cls] = { rp.seed, std::string(r->msg) + "\x01" + fn };
            }
            if (!cont && !match_any(known, cls))
                break;
        }
    }
    printf("{\"runs\":%ld,\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,"
           "\"vtime\":%.3f,\"wall\":%.3f,\"errors\":%llu,\"stalls\":%d,\"interleavings\":[",
           runs, (unsigned long long) steps, (unsigned long long) sw,
           (unsigned long long) pre, vt, wall() - t0,
           (unsigned long long) errors, stalls);
    bool first = true;
    for (u64 h : inter)
    {
        printf("%s%llu", first ? "" : ",", (unsigned long long) h);
        first = false;
    }
    printf("],\"states\":[");
    first = true;
    for (u64 h : states)
    {
        printf("%s%llu", first ? "" : ",", (unsigned long long) h);
        first = false;
    }
    printf("],\"counters\":{");
    first = true;
    for (auto &c : ctr)
    {
        printf("%s%s:[%llu,%llu]", first ? "" : ",", jstr(c.first).c_str(),
               (unsigned long long) c.second,
               (unsigned long long) ctr_runs[c.first]);
        first = false;
    }
    printf("},\"per_scn\":{");
    first = true;
    for (auto &c : per_scn)
    {
        printf("%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(),
               (unsigned long long) c.second);
        first = false;
    }
    printf("},\"samples\":[%s],\"found\":[", samples.c_str());
    first = true;
    for (auto &f : found)
    {
        size_t p = f.second.second.find('\x01');
        printf("%s{\"cls\":%s,\"seed\":%llu,\"msg\":%s,\"file\":%s,\"n\":%ld}",
               first ? "" : ",", jstr(f.first).c_str(),
               (unsigned long long) f.second.first,
               jstr(f.second.second.substr(0, p)).c_str(),
               jstr(f.second.second.substr(p + 1)).c_str(), found_n[f.first]);
        first = false;
    }
    printf("]}\n");
    if (covf)
    {
        FILE *f = fopen(covf, "w");
        if (f)
        {
            fwrite(cov_shared, 1, g_cov_n, f);
            fclose(f);
        }
    }
    return 0;
}
// -------------------------------------------------------------- minimise
static long g_tries;
static bool still(const Replay &rp, const std::string &cls)
{
    one_run(rp, false);
    g_tries++;
    return res_shared->status == 2 && cls == res_shared->cls;
}
template <class T>
static void ddmin(Replay &best, std::vector<T> Replay::*field,
                  const std::string &cls, double deadline)
{
    size_t chunk = ((best.*field).size() + 1) / 2;
    if (chunk == 0)
        return;
    // all at once first
    {
        Replay t = best;
        (t.*field).clear();
        if (still(t, cls))
        {
            best = t;
            return;
        }
    }
    while (chunk >= 1 && wall() < deadline)
    {
        bool any = false;
        for (size_t i = 0; i < (best.*field).size() && wall() < deadline;)
        {
            Replay t = best;
            auto &v = t.*field;
            size_t e = std::min(v.size(), i + chunk);
            v.erase(v.begin() + i, v.begin() + e);
            if (still(t, cls))
            {
                best = t;
                any = true;
            }
            else
                i += chunk;
        }
        if (chunk == 1 && !any)
            break;
        chunk = chunk == 1 ? 1 : chunk / 2;
    }
}
static int cmd_min(const char *in, const char *out, double tlimit)
{
    Replay best;
    if (!read_replay(best, in))
        return 2;
    std::string cls = best.cls;
    if (!still(best, cls))
    {
        fprintf(stderr, "does not reproduce: %s\n", res_shared->cls);
        return 3;
    }
    size_t n0 = best.draws.size(), s0 = best.sched.size();
    double dl = wall() + tlimit;
    // operations first: which ops exist is learnt from the probes
    for (int round = 0; round < 2 && wall() < dl; round++)
    {
        // try skipping each (actor, op); stop after a streak of failures
        for (unsigned a = 0; a < 12 && wall() < dl; a++)
            for (unsigned o = 0; o < 14 && wall() < dl; o++)
            {
                unsigned actor = 100 + a;
                if (std::find(best.skips.begin(), best.skips.end(),
                              std::make_pair(actor, o)) != best.skips.end())
                    continue;
                Replay t = best;
                t.skips.push_back({ actor, o });
                if (still(t, cls))
                    best = t;
            }
        ddmin(best, &Replay::sched, cls, dl);
        ddmin(best, &Replay::draws, cls, dl);
    }
    // canonical: drop recorded choices that are no longer consumed
    still(best, cls);
    Replay c = best;
    take_choices(c);
    if (still(c, cls))
        best = c;
    write_replay(best, out);
    fprintf(stderr, "minimised: draws %zu->%zu sched %zu->%zu skips %zu, "
            "%ld tries\n", n0, best.draws.size(), s0, best.sched.size(),
            best.skips.size(), g_tries);
    return 0;
}
}
using namespace sim;

int main(int argc, char **argv)
{
    if (argc > 1 && !getenv("MPSIM_ASLR"))
    {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("MPSIM_REEXEC"))
        {
            setenv("MPSIM_REEXEC", "1", 1);
            if (personality(p | ADDR_NO_RANDOMIZE) != -1)
                execv("/proc/self/exe", argv);
        }
    }
    setenv("TZ", "UTC", 1);
    {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_alarm;
        real_sigaction(SIGALRM, &sa);
    }
    res_shared = (Result *) mmap(0, sizeof(Result), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rec_shared = (u64 *) mmap(0, REC_CAP * 8, PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cov_shared = (unsigned char *) mmap(0, g_cov_n + 4096,
                                        PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    load_syms();
    xmlInitParser();
    if (getenv("MPSIM_CPU"))
    {
        cpu_set_t all, one;
        int want = atoi(getenv("MPSIM_CPU"));
        if (!sched_getaffinity(0, sizeof all, &all))
        {
            int n = CPU_COUNT(&all), k = want % n;
            for (int i = 0; i < CPU_SETSIZE; i++)
                if (CPU_ISSET(i, &all) && k-- == 0)
                {
                    CPU_ZERO(&one);
                    CPU_SET(i, &one);
                    sched_setaffinity(0, sizeof one, &one);
                    break;
                }
        }
    }
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list")
    {
        for (auto &s : scenarios())
            printf("%s\n", s.name);
        return 0;
    }
    if (cmd == "search")
        return cmd_search(argc - 2, argv + 2);
    if (cmd == "seed" && argc >= 4)
    {   // seed SCN SEED [-v] [-o FILE]
        Replay rp;
        rp.scn = argv[2];
        rp.seed = strtoull(argv[3], 0, 10);
        bool v = false;
        const char *out = 0;
        for (int i = 4; i < argc; i++)
            if (!strcmp(argv[i], "-v"))
                v = true;
            else if (!strcmp(argv[i], "-o") && i + 1 < argc)
                out = argv[++i];
        one_run(rp, v);
        print_result(stdout);
        if (out)
        {
            rp.cls = res_shared->cls;
            take_choices(rp);
            write_replay(rp, out);
        }
        return 0;
    }
    if (cmd == "replay" && argc >= 3)
    {
        Replay rp;
        if (!read_replay(rp, argv[2]))
            return 2;
        one_run(rp, argc > 3 && !strcmp(argv[3], "-v"));
        print_result(stdout);
        return 0;
    }
    if (cmd == "min" && argc >= 5)
        return cmd_min(argv[2], argv[3], atof(argv[4]));
    if (cmd == "ncov")
    {
        printf("%zu\n", g_cov_n);
        return 0;
    }
    fprintf(stderr, "usage: mpsim list|search|seed|replay|min\n");
    return 2;
}
