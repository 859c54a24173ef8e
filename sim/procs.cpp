// Signals, process exit, simulated child processes (CGI), simulated files.
#include "core.hpp"
#include "procs.hpp"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#ifndef SIM_RACE
#include <sanitizer/asan_interface.h>
#endif

extern "C" {
sighandler_t __real_signal(int, sighandler_t);
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int __real_kill(pid_t, int);
pid_t __real_waitpid(pid_t, int *, int);
int __real_setenv(const char *, const char *, int);
int __real_chdir(const char *);
int __real_unsetenv(const char *);
int __real_clearenv(void);
long __real_sysconf(int);
int __real_getdtablesize(void);
FILE *__real_fopen(const char *, const char *);
int __real_stat(const char *, struct stat *);
int __real_open(const char *, int, ...);
void __real__exit(int) __attribute__((noreturn));
void __real_exit(int) __attribute__((noreturn));
int __real_access(const char *, int);
}

namespace sim {
std::map<std::string, FsFile> fs;
std::map<std::string, std::string> fs_written;
unsigned fs_write_den;
std::vector<std::string> fs_opened;
static std::map<int, sighandler_t> handlers;
static std::vector<int> pending;
static int sig_seq = 0;
static int main_tid = -1;
static bool exited = false;
static int exit_code = 0;
bool g_proxy_exited = false;
std::function<int(ChildIO &)> child_program;
int fork_fail_den = 0;
std::set<int> g_cloexec;
static std::map<std::string, std::string> sim_env;   // set by the proxy itself
static std::string sim_cwd = "/";
static std::string norm_path(const char *path);
static std::string in_dir(const std::string &dir, const std::string &p)
{ return p.empty() || p[0] == '/' ? p : dir + "/" + p; }

void set_main_tid(int t) { main_tid = t; }
bool proxy_exited() { return exited; }
int proxy_exit_code() { return exit_code; }
int signal_seq() { return sig_seq; }
bool signal_handled(int signo)
{
    auto it = handlers.find(signo);
    return it != handlers.end() && it->second != SIG_IGN && it->second != SIG_DFL;
}
void raise_signal(int signo)
{
    log("signal %d", signo);
    count(signo == SIGTERM ? "fault.sigterm" : "fault.sigusr1");
    pending.push_back(signo);
    sig_seq++;
    dirty();
}
static void run_handlers()
{
    while (!pending.empty())
    {
        int s = pending.front();
        pending.erase(pending.begin());
        auto it = handlers.find(s);
        if (it != handlers.end() && it->second != SIG_IGN &&
            it->second != SIG_DFL)
            it->second(s);
    }
}
// called by the main thread of the proxy around poll
bool take_eintr()
{
    if (self_id() != main_tid || pending.empty())
        return false;
    run_handlers();
    return true;
}
bool is_main_tid() { return self_id() == main_tid; }
void point_signals()
{
    if (self_id() == main_tid && !pending.empty())
        run_handlers();
}
// ------------------------------------------------------------- processes
struct Proc {
    int pid;
    FdTable fds;
    std::set<int> cloexec;
    bool done = false, reaped = false;
    int status = 0;
    std::shared_ptr<ChildIO> io;
};
static std::vector<std::shared_ptr<Proc>> procs;
int children_running()
{
    int n = 0;
    for (auto &p : procs)
        if (!p->done)
            n++;
    return n;
}
int children_zombies()
{
    int n = 0;
    for (auto &p : procs)
        if (p->done && !p->reaped)
            n++;
    return n;
}
int children_total() { return (int) procs.size(); }
static std::shared_ptr<Proc> cur_child;   // set between fork and exec
static unsigned long saved_rsp;
static const size_t SAVE = 32768;
static char saved_stack[SAVE];
static char saved_shadow[SAVE / 8];
static size_t saved_len;
static char alt_stack[65536] __attribute__((aligned(16)));

std::set<int> &cur_cloexec() { return cur_child ? cur_child->cloexec : g_cloexec; }
FdTable *child_fds() { return cur_child ? &cur_child->fds : 0; }
static void raw_copy(void *d, const void *s, size_t n)
{
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static char *shadow(unsigned long a) { return (char *) ((a >> 3) + 0x7fff8000ul); }
static void proc_exit(std::shared_ptr<Proc> p, int status)
{
    if (p->done)
        return;
    p->done = true;
    p->status = status;
    FdTable t;
    t.swap(p->fds);
    fds_ref(t, -1);
    dirty();
}
void proc_close(ChildIO &io, int fd)
{
    for (auto &p : procs)
        if (p->io.get() == &io && p->fds.count(fd))
        {
            SockP s = p->fds[fd];
            p->fds.erase(fd);
            FdTable t;
            t[0] = s;
            fds_ref(t, -1);
            dirty();
        }
}
[[noreturn]] static void leave_child(int pid);
}
using namespace sim;

struct Cookie { std::string path; long pos; bool write; FsFile file; };
static int open_files;
namespace sim {
int open_file_count() { return open_files; }
// what the kernel makes of a path
static std::string norm_path(const char *path)
{
    std::vector<std::string> v;
    std::string s(path), w;
    s += '/';
    for (size_t i = 1; i < s.size(); i++)
    {
        if (s[i] != '/')
        {
            w += s[i];
            continue;
        }
        if (w == "..")
        {
            if (!v.empty())
                v.pop_back();
        }
        else if (!w.empty() && w != ".")
            v.push_back(w);
        w.clear();
    }
    std::string r;
    for (auto &x : v)
        r += "/" + x;
    return r;
}
}
extern "C" {
// fork(): the child runs first on the caller's stack until it calls execl or
// exit; then the stack is put back and fork returns again in the parent.
long sim_fork_enter(unsigned long rsp)
{
    NoPreempt np;
    if (!in_sim())
        abort();
    if (fork_fail_den && chance(ST_FAULT, 1, fork_fail_den))
    {
        count("fault.fork_failure");
        errno = EAGAIN;
        return -1;
    }
    std::shared_ptr<Proc> p(new Proc);
    p->cloexec = g_cloexec;
    p->pid = 5000 + (int) procs.size();
    p->fds = g_fds;
    p->io.reset(new ChildIO);
    p->io->pid = p->pid;
    p->io->env = sim_env;
    p->io->cwd = sim_cwd;
    p->io->killed = false;
    SockP none;
    fds_ref(p->fds, 1);
    procs.push_back(p);
    saved_rsp = rsp;
    unsigned long a = rsp & ~7ul;
    // do not run over the end of this thread's stack
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void *base;
    size_t sz;
    pthread_attr_getstack(&at, &base, &sz);
    pthread_attr_destroy(&at);
    unsigned long top = (unsigned long) base + sz;
    saved_len = top - a < SAVE ? top - a : SAVE;
    saved_len &= ~63ul;
    raw_copy(saved_stack, (void *) a, saved_len);
#ifndef SIM_RACE
    raw_copy(saved_shadow, shadow(a), saved_len / 8);
#endif
    sim::log("fork pid %d", p->pid);
    cur_child = p;
    *self_child_proc() = p->pid;
    nopreempt_add(1);   // the child runs without scheduling points
    return 0;
}
unsigned long sim_fork_saved_rsp(void) { return saved_rsp; }
void sim_fork_restore(void)
{
    unsigned long a = saved_rsp & ~7ul;
    raw_copy((void *) a, saved_stack, saved_len);
#ifndef SIM_RACE
    raw_copy(shadow(a), saved_shadow, saved_len / 8);
#endif
}
void sim_fork_resume(unsigned long alt, unsigned long rsp, long pid)
    __attribute__((noreturn));
pid_t __wrap_fork(void);
asm(".text\n"
    ".globl __wrap_fork\n"
    ".type __wrap_fork,@function\n"
    "__wrap_fork:\n"
    " push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
    " sub $8,%rsp\n"
    " mov %rsp,%rdi\n"
    " call sim_fork_enter\n"
    "1: add $8,%rsp\n"
    " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n"
    " ret\n"
    ".globl sim_fork_resume\n"
    "sim_fork_resume:\n"   // rdi alt stack, rsi rsp, rdx pid
    " mov %rdi,%rsp\n"
    " mov %rsi,%r12\n"
    " mov %rdx,%r13\n"
    " call sim_fork_restore\n"
    " mov %r12,%rsp\n"
    " mov %r13,%rax\n"
    " jmp 1b\n");
}
namespace sim {
[[noreturn]] static void leave_child(int pid)
{
    cur_child.reset();
    *self_child_proc() = 0;
    // undo the NoPreempt of sim_fork_enter
    nopreempt_add(-1);
    unsigned long here = (unsigned long) __builtin_frame_address(0) - 4096;
#ifndef SIM_RACE
    if (here < saved_rsp)
        __asan_unpoison_memory_region((void *) here, saved_rsp - here);
#endif
    sim_fork_resume((unsigned long) (alt_stack + sizeof alt_stack), saved_rsp,
                    pid);
}
}

extern "C" {
sighandler_t __wrap_signal(int s, sighandler_t h)
{
    if (!in_sim())
        return __real_signal(s, h);
    sighandler_t old = handlers.count(s) ? handlers[s] : SIG_DFL;
    handlers[s] = h;
    return old;
}
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
    if (!in_sim())
        return __real_sigaction(s, a, o);
    if (o)
        memset(o, 0, sizeof *o);
    if (a)
        handlers[s] = a->sa_handler;
    return 0;
}
int __wrap_prctl(int, ...) { return 0; }
unsigned __wrap_alarm(unsigned) { return 0; }
pid_t __wrap_getpgid(pid_t) { return 4242; }
int __wrap_setpgid(pid_t, pid_t) { return 0; }
int __wrap_kill(pid_t pid, int sig)
{
    if (!in_sim())
        return __real_kill(pid, sig);
    point("kill");
    NoPreempt np;
    sim::log("kill %d %d", (int) pid, sig);
    int n = 0;
    for (auto &p : procs)
        if (!p->reaped && (p->pid == pid || pid < 0))
        {
            n++;
            if (p->done || sig == 0 || (sig != SIGKILL && p->io->ignore_term))
                continue;
            p->io->killed = true;
            p->io->killed_sig = sig;
            count("probe.child_killed");
            proc_exit(p, sig);
        }
    if (!n && pid > 0)
    {
        errno = ESRCH;
        return -1;
    }
    return 0;
}
pid_t __wrap_waitpid(pid_t pid, int *status, int options)
{
    if (!in_sim())
        return __real_waitpid(pid, status, options);
    point("waitpid");
    std::shared_ptr<Proc> p;
    for (auto &x : procs)
        if ((x->pid == pid || pid == -1) && !x->reaped && (!p || !p->done))
            p = x;
    if (!p)
    {
        errno = ECHILD;
        return -1;
    }
    if (!p->done && (options & WNOHANG))
        return 0;
    block("waitpid", [p] { return p->done; }, -1);
    p->reaped = true;
    if (status)
        *status = p->status;
    return p->pid;
}
static std::map<std::string, std::string> &env_of()
{ return cur_child ? cur_child->io->env : sim_env; }
int __wrap_setenv(const char *n, const char *v, int o)
{
    if (!in_sim())
        return __real_setenv(n, v, o);
    NoPreempt np;
    if (o || !env_of().count(n))
        env_of()[n] = v;
    return 0;
}
int __wrap_unsetenv(const char *n)
{
    if (!in_sim())
        return __real_unsetenv(n);
    NoPreempt np;
    env_of().erase(n);
    return 0;
}
int __wrap_clearenv(void)
{
    if (!in_sim())
        return __real_clearenv();
    NoPreempt np;
    env_of().clear();
    return 0;
}
int __wrap_chdir(const char *d)
{
    if (!in_sim())
        return __real_chdir(d);
    NoPreempt np;
    std::string &c = cur_child ? cur_child->io->cwd : sim_cwd;
    c = norm_path(in_dir(c, d).c_str());
    return 0;
}
long __wrap_sysconf(int name)
{
    if (cur_child && name == _SC_OPEN_MAX)
        return 2048;
    return __real_sysconf(name);
}
int __wrap_getdtablesize(void)
{
    return cur_child ? 2048 : __real_getdtablesize();
}
int __wrap_close_range(unsigned lo, unsigned hi, int flags)
{
    if (!in_sim())
        return syscall(SYS_close_range, lo, hi, flags);
    if (!cur_child)
        return 0;
    NoPreempt np;
    std::vector<int> v;
    for (auto &p : cur_child->fds)
        if ((unsigned) p.first >= lo && (unsigned) p.first <= hi)
            v.push_back(p.first);
    for (int fd : v)
        if (flags & 4)
            cur_child->cloexec.insert(fd);
        else
            sim_close_fd(fd);
    return 0;
}
void __wrap_closefrom(int lo)
{
    __wrap_close_range(lo, ~0u, 0);
}
static int do_exec(const char *path, std::vector<std::string> argv, char *const *envp)
{
    if (!cur_child)
    {
        errno = ENOENT;
        return -1;
    }
    std::shared_ptr<Proc> p = cur_child;
    p->io->path = norm_path(in_dir(p->io->cwd, path).c_str());
    p->io->argv = argv;
    if (strstr(path, "missing"))
    {
        errno = ENOENT;
        return -1;
    }
    if (envp)
    {
        p->io->env.clear();
        for (; *envp; envp++)
        {
            std::string e(*envp);
            size_t q = e.find('=');
            if (q != std::string::npos)
                p->io->env[e.substr(0, q)] = e.substr(q + 1);
        }
    }
    std::set<int> ce = p->cloexec;
    for (int fd : ce)
        sim_close_fd(fd);
    // descriptors 0 and 1 of the child
    p->io->in = p->fds.count(0) ? p->fds[0] : SockP();
    p->io->out = p->fds.count(1) ? p->fds[1] : SockP();
    for (auto &f : p->fds)
        if (f.first > 2)
        {
            p->io->extra_fds++;
            char b[20];
            snprintf(b, sizeof b, " %d", f.first);
            p->io->extra += b;
        }
    cur_child.reset();
    int pid = p->pid;
    spawn("cgi", [p] {
        int st = child_program ? child_program(*p->io) : 0;
        proc_exit(p, st << 8);
    }, 20000 + pid);
    p.reset();
    ce.clear();
    { std::vector<std::string> none; none.swap(argv); }
    leave_child(pid);
}
static std::vector<std::string> args(const char *arg, va_list ap)
{
    std::vector<std::string> v;
    for (; arg; arg = va_arg(ap, const char *))
        v.push_back(arg);
    return v;
}
static std::vector<std::string> args(char *const *a)
{
    std::vector<std::string> v;
    for (; a && *a; a++)
        v.push_back(*a);
    return v;
}
int __wrap_execl(const char *path, const char *arg, ...)
{
    va_list ap;
    va_start(ap, arg);
    int r = do_exec(path, args(arg, ap), 0);
    va_end(ap);
    return r;
}
int __wrap_execlp(const char *path, const char *arg, ...)
{
    va_list ap;
    va_start(ap, arg);
    int r = do_exec(path, args(arg, ap), 0);
    va_end(ap);
    return r;
}
int __wrap_execv(const char *path, char *const *a) { return do_exec(path, args(a), 0); }
int __wrap_execve(const char *path, char *const *a, char *const *e)
{ return do_exec(path, args(a), e); }
int __wrap_execvp(const char *path, char *const *a) { return do_exec(path, args(a), 0); }

static void __attribute__((noreturn)) end_proxy(int rc)
{
    exited = true;
    exit_code = rc;
    g_proxy_exited = true;
    sim::log("proxy exit %d", rc);
    FdTable t;
    t.swap(g_fds);
    fds_ref(t, -1);
    dirty();
    thread_halt();
}
void __wrap__exit(int rc)
{
    if (!in_sim())
        __real__exit(rc);
    if (cur_child)
    {
        std::shared_ptr<Proc> p = cur_child;
        cur_child.reset();
        int pid = p->pid;
        proc_exit(p, rc << 8);
        p.reset();
        leave_child(pid);
    }
    end_proxy(rc);
}
void __wrap_exit(int rc)
{
    if (!in_sim())
        __real_exit(rc);
    __wrap__exit(rc);
}
// ------------------------------------------------------------------ files
static ssize_t ck_read(void *c, char *buf, size_t n)
{
    NoPreempt np;
    Cookie *k = (Cookie *) c;
    FsFile &f = k->file;
    long size = (long) f.data.size();
    if (f.truncate_after_stat >= 0 && f.truncate_after_stat < size)
        size = f.truncate_after_stat;
    if (f.read_err_at >= 0 && k->pos + (long) n > f.read_err_at)
    {
        if (k->pos >= f.read_err_at)
        {
            count("fault.disk_read_error");
            errno = EIO;
            return -1;
        }
        n = f.read_err_at - k->pos;
    }
    if (k->pos >= size)
    {
        if (f.truncate_after_stat >= 0)
            count("fault.file_truncated");
        return 0;
    }
    size_t m = size - k->pos;
    if (m > n)
        m = n;
    if (m > 1 && K.short_read_den && chance(ST_NET, 1, K.short_read_den))
        m = 1 + draw(ST_NET, (unsigned) (m - 1));
    memcpy(buf, f.data.data() + k->pos, m);
    k->pos += m;
    return (ssize_t) m;
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
    NoPreempt np;
    Cookie *k = (Cookie *) c;
    if (fs_write_den && chance(ST_FAULT, 1, fs_write_den))
    {
        count("fault.disk_full");
        errno = ENOSPC;
        return 0;               // stdio's convention for an error
    }
    fs_written[k->path].append(buf, n);
    return (ssize_t) n;
}
static int ck_seek(void *c, off64_t *off, int whence)
{
    NoPreempt np;
    Cookie *k = (Cookie *) c;
    FsFile &f = k->file;
    long sz = f.stat_size >= 0 ? f.stat_size : (long) f.data.size();
    long b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? k->pos : sz;
    b += *off;
    if (b < 0)
        return -1;
    k->pos = b;
    *off = b;
    return 0;
}
static int ck_close(void *c) { NoPreempt np; delete (Cookie *) c; open_files--; return 0; }

FILE *__wrap_fopen(const char *path, const char *mode)
{
    if (strncmp(path, "/simfs/", 7) || !in_sim())
        return __real_fopen(path, mode);
    point("fopen");
    NoPreempt np;
    std::string np_ = norm_path(path);
    fs_opened.push_back(np_);
    if (open_fds() >= K.max_fds)
    {
        count("fault.emfile");
        errno = EMFILE;
        return 0;
    }
    FsFile file;
    if (mode[0] == 'r')
    {
        auto it = fs.find(np_);
        if (it == fs.end() || !it->second.exists)
        {
            errno = ENOENT;
            return 0;
        }
        file = it->second;       // replaced files stay as they are for readers
        if (it->second.eacces)
        {
            errno = EACCES;
            return 0;
        }
        if (it->second.eio_open)
        {
            count("fault.disk_open_error");
            errno = EIO;
            return 0;
        }
    }
    Cookie *k = new Cookie;
    k->path = np_;
    k->file = file;
    open_files++;
    k->pos = 0;
    k->write = mode[0] != 'r';
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    return fopencookie(k, mode, io);
}
FILE *__wrap_fopen64(const char *path, const char *mode)
{ return __wrap_fopen(path, mode); }
int __wrap_stat(const char *path, struct stat *st)
{
    if (strncmp(path, "/simfs/", 7) || !in_sim())
        return __real_stat(path, st);
    point("stat");
    NoPreempt np;
    std::string n = norm_path(path);
    fs_opened.push_back(n);
    auto it = fs.find(n);
    if (it == fs.end() || !it->second.exists ||
        (!it->second.isdir && path[strlen(path) - 1] == '/'))
    {
        errno = ENOENT;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode = it->second.isdir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = it->second.data.size();
    return 0;
}
}
