// Simulated sockets, pipes, poll, DNS; wrapped descriptor calls.
#include "core.hpp"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <deque>
#include <algorithm>
#include "procs.hpp"

extern "C" {
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_fcntl(int, int, ...);
int __real_pipe(int *);
int __real_dup(int);
int __real_dup2(int, int);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_ioctl(int, unsigned long, ...);
}

namespace sim {
// one direction of a byte stream
struct Dir {
    std::string buf;       // delivered, not yet read
    size_t off = 0;        // consumed prefix of buf
    size_t inflight = 0;
    i64 last_delivery = 0;
    bool fin_sent = false, fin = false;
    bool rst = false;
    size_t avail() const { return buf.size() - off; }
};
struct Conn {
    Dir d[2];              // d[i]: data readable by side i
    int id = 0;
    uint32_t src_ip = 0, dst_ip = 0;
    uint16_t src_port = 0, dst_port = 0;
    bool closed[2] = { false, false };
    int err[2] = { 0, 0 };
};
enum SKind { S_NEW, S_LISTEN, S_STREAM, S_CONNECTING, S_PIPE };
struct Sock {
    SKind kind = S_NEW;
    bool proxy = true;
    bool nonblock = false;
    std::shared_ptr<Conn> conn;
    int side = 0;
    // listener
    uint32_t ip = 0;
    uint16_t port = 0;
    std::deque<SockP> backlog;
    int backlog_max = 128;
    bool open = true;
    int refs = 0;          // descriptors
    bool pipe_w = false;
    bool rd_shut = false;
    int conn_err = 0;
    uint32_t peer_ip = 0;
    uint16_t peer_port = 0;
    unsigned actor = 0;
};
static std::map<std::string, uint32_t> dns_map;
static std::vector<SockP> listeners;
static std::set<std::pair<uint32_t, int>> blackholes;
static int next_conn = 1;
static uint16_t next_port = 30000;
FdTable g_fds;                     // the proxy process
static FdTable *cur_fds() { return child_fds() ? child_fds() : &g_fds; }
static std::vector<std::weak_ptr<Conn>> all_conns;

std::string ipstr(uint32_t ip)
{
    char b[30];
    snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255,
             (ip >> 8) & 255, ip & 255);
    return b;
}
uint32_t dns(const std::string &name, bool add)
{
    struct in_addr a;
    if (name == "@" || name == "*" || name.empty())
        return 0;
    if (inet_aton(name.c_str(), &a))
        return ntohl(a.s_addr);
    if (name == "localhost")
        return 0x7f000001;
    auto it = dns_map.find(name);
    if (it != dns_map.end())
        return it->second;
    if (!add)
        return 0xffffffff;
    uint32_t ip = 0x0a000001 + (uint32_t) dns_map.size();
    dns_map[name] = ip;
    return ip;
}
int open_fds() { return (int) g_fds.size() + open_file_count(); }
std::string list_fds()
{
    std::string s;
    for (auto &p : g_fds)
    {
        char b[100];
        Sock *k = p.second.get();
        snprintf(b, sizeof b, " %d:%s", p.first,
                 k->kind == S_LISTEN ? "listen" : k->kind == S_PIPE ? "pipe" :
                 k->kind == S_STREAM ? "stream" : k->kind == S_CONNECTING ?
                 "connecting" : "new");
        s += b;
        if (k->conn && k->kind != S_PIPE)
        {
            snprintf(b, sizeof b, "(%s:%d->%s:%d)",
                     ipstr(k->conn->src_ip).c_str(), k->conn->src_port,
                     ipstr(k->conn->dst_ip).c_str(), k->conn->dst_port);
            s += b;
        }
    }
    return s;
}
int open_conns_to(const std::string &host, int port)
{
    uint32_t ip = dns(host, true);
    int n = 0;
    for (auto &p : g_fds)
    {
        Sock *k = p.second.get();
        if (k->kind == S_STREAM && k->conn && k->side == 0 &&
            k->conn->dst_ip == ip && k->conn->dst_port == port)
            n++;
    }
    return n;
}
void net_blackhole(const std::string &host, int port, bool on)
{
    auto k = std::make_pair(dns(host, true), port);
    if (on)
        blackholes.insert(k);
    else
        blackholes.erase(k);
}
static i64 latency(unsigned actor)
{
    i64 l = K.lat_min;
    if (K.lat_max > K.lat_min)
    {
        // quantised so that the draw stays small
        unsigned q = draw_a(ST_NET, actor, 8);
        l += (K.lat_max - K.lat_min) * q / 7;
    }
    if (K.lat_spike_den && chance_a(ST_NET, actor, 1, K.lat_spike_den))
    {
        l += K.lat_spike;
        count("fault.latency_spike");
    }
    return l;
}
static void kill_conn(std::shared_ptr<Conn> c)
{   // both ends see a reset
    c->d[0].rst = c->d[1].rst = true;
    dirty();
}
static void deliver(std::shared_ptr<Conn> c, int to, std::string data,
                    unsigned actor)
{
    Dir &d = c->d[to];
    d.inflight += data.size();
    size_t pos = 0;
    while (pos < data.size())
    {
        size_t n = data.size() - pos;
        if (n > 1 && K.split_den && chance_a(ST_NET, actor, 1, K.split_den))
        {
            n = 1 + draw_a(ST_NET, actor, (unsigned) (n - 1));
            count("fault.segment_split");
        }
        i64 t = now() + latency(actor);
        if (t < d.last_delivery)
            t = d.last_delivery;
        d.last_delivery = t;
        std::string part = data.substr(pos, n);
        at(t, [c, to, part] {
            Dir &d = c->d[to];
            d.inflight -= part.size();
            if (c->closed[to])
            {   // data to a closed socket: reset back to the sender
                c->d[1 - to].rst = true;
                return;
            }
            if (d.rst)
                return;
            if (d.off > 4096 && d.off * 2 > d.buf.size())
            {
                d.buf.erase(0, d.off);
                d.off = 0;
            }
            d.buf += part;
        });
        pos += n;
    }
}
static void send_fin(std::shared_ptr<Conn> c, int to, bool rst, unsigned actor)
{
    Dir &d = c->d[to];
    if (d.fin_sent && !rst)
        return;
    d.fin_sent = true;
    i64 t = now() + latency(actor);
    if (t < d.last_delivery)
        t = d.last_delivery;
    d.last_delivery = t;
    at(t, [c, to, rst] {
        if (rst)
            c->d[to].rst = true;
        else
            c->d[to].fin = true;
    });
}
static size_t space(Sock *s)
{
    Dir &d = s->conn->d[1 - s->side];
    size_t used = d.avail() + d.inflight;
    size_t cap = s->kind == S_PIPE ? K.fifo_cap : K.pipe_cap;
    return used >= cap ? 0 : cap - used;
}
static bool can_read(Sock *s)
{
    switch (s->kind)
    {
    case S_LISTEN:
        return !s->backlog.empty();
    case S_PIPE:
        if (s->pipe_w)
            return false;
        // fallthrough
    case S_STREAM:
    {
        Dir &d = s->conn->d[s->side];
        return d.avail() || d.fin || d.rst || s->rd_shut || s->conn_err;
    }
    case S_CONNECTING:
        return s->conn_err != 0;
    default:
        return true;
    }
}
static bool can_write(Sock *s)
{
    switch (s->kind)
    {
    case S_STREAM:
        if (s->conn->d[s->side].rst || s->conn_err)
            return true;
        return space(s) > 0;
    case S_PIPE:
        return s->pipe_w && space(s) > 0;
    case S_CONNECTING:
        return s->conn_err != 0;
    case S_LISTEN:
        return false;
    default:
        return true;
    }
}
static bool hup(Sock *s)
{
    if (s->conn_err)
        return true;
    if (s->kind == S_STREAM)
        return s->conn->d[s->side].rst ||
            (s->conn->d[s->side].fin && s->conn->d[1 - s->side].fin_sent);
    if (s->kind == S_PIPE)
        return s->pipe_w ? s->conn->closed[0] : s->conn->d[s->side].fin;
    return s->kind == S_NEW;
}
static long do_read(Sock *s, char *buf, size_t n, bool proxy)
{
    Dir &d = s->conn->d[s->side];
    if (d.avail())
    {
        size_t k = std::min(n, d.avail());
        if (proxy && s->kind == S_STREAM && k > 1 && K.short_read_den &&
            chance(ST_NET, 1, K.short_read_den))
        {
            k = 1 + draw(ST_NET, (unsigned) (k - 1));
            count("fault.short_read");
        }
        memcpy(buf, d.buf.data() + d.off, k);
        d.off += k;
        if (d.off == d.buf.size())
        {
            d.buf.clear();
            d.off = 0;
        }
        dirty();
        return (long) k;
    }
    if (s->conn_err)
    {
        errno = s->conn_err;
        return -1;
    }
    if (d.rst)
    {
        errno = ECONNRESET;
        return -1;
    }
    if (d.fin || s->rd_shut)
        return 0;
    errno = EAGAIN;
    return -1;
}
static long do_write(Sock *s, const char *buf, size_t n, bool proxy)
{
    std::shared_ptr<Conn> c = s->conn;
    if (s->conn_err)
    {
        errno = s->conn_err;
        return -1;
    }
    if (s->kind == S_PIPE)
    {
        if (c->closed[0])
        {
            errno = EPIPE;
            return -1;
        }
    }
    else if (c->d[s->side].rst || c->d[1 - s->side].fin_sent)
    {
        errno = c->d[s->side].rst ? ECONNRESET : EPIPE;
        return -1;
    }
    size_t sp = space(s);
    if (!sp)
    {
        errno = EAGAIN;
        return -1;
    }
    size_t k = std::min(n, sp);
    if (s->kind == S_PIPE)
    {
        c->d[0].buf.append(buf, k);
        dirty();
        return (long) k;
    }
    if (proxy && k > 1 && K.short_write_den &&
        chance(ST_NET, 1, K.short_write_den))
    {
        k = 1 + draw(ST_NET, (unsigned) (k - 1));
        count("fault.short_write");
    }
    deliver(c, 1 - s->side, std::string(buf, k), self_actor());
    if (proxy && K.rst_den && chance(ST_FAULT, 1, K.rst_den))
    {
        count("fault.conn_reset");
        log("inject reset conn %d", c->id);
        i64 t = now() + latency(self_actor());
        at(t, [c] { kill_conn(c); });
    }
    return (long) k;
}
static void do_close(Sock *s)
{
    s->open = false;
    if (s->kind == S_LISTEN)
    {
        for (auto &b : s->backlog)
            kill_conn(b->conn);
        s->backlog.clear();
        for (size_t i = 0; i < listeners.size(); i++)
            if (listeners[i].get() == s)
            {
                listeners.erase(listeners.begin() + i);
                break;
            }
    }
    else if (s->kind == S_PIPE)
    {
        s->conn->closed[s->pipe_w ? 1 : 0] = true;
        if (s->pipe_w)
            s->conn->d[0].fin = true;
    }
    else if (s->conn && (s->kind == S_STREAM || s->kind == S_CONNECTING))
    {
        Dir &d = s->conn->d[s->side];
        s->conn->closed[s->side] = true;
        bool unread = d.avail() > 0;
        send_fin(s->conn, 1 - s->side, unread, self_actor());
    }
    dirty();
}
static SockP find_listener(uint32_t ip, uint16_t port)
{
    for (auto &l : listeners)
        if (l->port == port && (l->ip == 0 || ip == 0 || l->ip == ip))
            return l;
    return SockP();
}
// start a connection; completes through an event
static void start_connect(SockP s, uint32_t ip, uint16_t port, uint32_t src)
{
    std::shared_ptr<Conn> c(new Conn);
    c->id = next_conn++;
    c->src_ip = src;
    c->src_port = next_port++;
    c->dst_ip = ip;
    c->dst_port = port;
    s->conn = c;
    s->side = 0;
    s->kind = S_CONNECTING;
    s->peer_ip = ip;
    s->peer_port = port;
    all_conns.push_back(c);
    if (blackholes.count(std::make_pair(ip, (int) port)))
    {
        count("fault.connect_blackhole");
        return;
    }
    i64 t = now() + latency(self_actor());
    at(t, [s, c, ip, port] {
        if (!s->open)
            return;
        SockP l = find_listener(ip, port);
        if (!l || (int) l->backlog.size() >= l->backlog_max)
        {
            s->conn_err = ECONNREFUSED;
            count("fault.connect_refused");
            return;
        }
        SockP p(new Sock);
        p->kind = S_STREAM;
        p->conn = c;
        p->side = 1;
        p->proxy = l->proxy;
        p->peer_ip = c->src_ip;
        p->peer_port = c->src_port;
        l->backlog.push_back(p);
        s->kind = S_STREAM;
    });
}
// ---------------------------------------------------------------- env API
SockP env_listen(const std::string &host, int port)
{
    NoPreempt np;
    SockP s(new Sock);
    s->proxy = false;
    s->kind = S_LISTEN;
    s->ip = dns(host, true);
    s->port = (uint16_t) port;
    listeners.push_back(s);
    dirty();
    return s;
}
SockP env_accept(SockP l, i64 deadline)
{
    point("env_accept");
    Sock *s = l.get();
    if (!block("env_accept", [s] { return !s->open || !s->backlog.empty(); },
               deadline) || s->backlog.empty())
        return SockP();
    SockP p = l->backlog.front();
    l->backlog.pop_front();
    return p;
}
SockP env_connect(const std::string &src, const std::string &host, int port,
                  i64 deadline)
{
    point("env_connect");
    SockP s(new Sock);
    s->proxy = false;
    uint32_t ip = dns(host, true);
    start_connect(s, ip, (uint16_t) port, dns(src, true));
    Sock *k = s.get();
    block("env_connect", [k] { return k->kind == S_STREAM || k->conn_err; },
          deadline);
    if (k->kind != S_STREAM)
    {
        do_close(k);
        return SockP();
    }
    return s;
}
long env_read(SockP s, char *buf, size_t n, i64 deadline)
{
    point("env_read");
    Sock *k = s.get();
    if (!block("env_read", [k] { return !k->open || can_read(k); }, deadline))
        return -1;
    if (!k->open)
        return -2;
    long r = do_read(k, buf, n, false);
    return r < 0 ? -2 : r;
}
bool env_write(SockP s, const std::string &data, i64 deadline)
{
    point("env_write");
    size_t pos = 0;
    Sock *k = s.get();
    while (pos < data.size())
    {
        if (!k->open)
            return false;
        if (!block("env_write", [k] { return !k->open || can_write(k); },
                   deadline))
            return false;
        if (!k->open)
            return false;
        long r = do_write(k, data.data() + pos, data.size() - pos, false);
        if (r < 0 && errno != EAGAIN)
            return false;
        if (r > 0)
            pos += r;
    }
    return true;
}
void env_close(SockP s)
{
    if (s && s->open)
    {
        do_close(s.get());
        point("env_close");
    }
}
void env_shutdown_wr(SockP s)
{
    send_fin(s->conn, 1 - s->side, false, self_actor());
    dirty();
}
void env_reset(SockP s)
{
    if (!s || !s->open)
        return;
    s->open = false;
    s->conn->closed[s->side] = true;
    send_fin(s->conn, 1 - s->side, true, self_actor());
    dirty();
}
bool env_peer_closed(SockP s)
{
    Dir &d = s->conn->d[s->side];
    return d.fin || d.rst;
}
std::string env_peer_ip(SockP s) { return ipstr(s->peer_ip); }
int env_conn_id(SockP s) { return s->conn->id; }

// -------------------------------------------------------------- fd helpers
static const int FD0 = 1000;
static int alloc_fd(SockP s)
{
    FdTable *t = cur_fds();
    if ((int) t->size() >= K.max_fds)
    {
        count("fault.emfile");
        errno = EMFILE;
        return -1;
    }
    int fd = FD0;
    for (auto &p : *t)
    {
        if (p.first != fd)
            break;
        fd++;
    }
    (*t)[fd] = s;
    cur_cloexec().erase(fd);
    s->refs++;
    return fd;
}
static SockP get_fd(int fd)
{
    FdTable *t = cur_fds();
    auto it = t->find(fd);
    return it == t->end() ? SockP() : it->second;
}
void fds_ref(FdTable &t, int d)
{
    std::vector<SockP> drop;
    for (auto &p : t)
    {
        p.second->refs += d;
        if (!p.second->refs)
            drop.push_back(p.second);
    }
    for (auto &p : drop)
        do_close(p.get());
}
int sim_close_fd(int fd)
{
    FdTable *t = cur_fds();
    auto it = t->find(fd);
    if (it == t->end())
    {
        errno = EBADF;
        return -1;
    }
    SockP s = it->second;
    t->erase(it);
    cur_cloexec().erase(fd);
    if (--s->refs == 0)
        do_close(s.get());
    return 0;
}
// I/O for simulated CGI children (env threads acting on their own table)
long proc_read(SockP s, char *buf, size_t n, i64 deadline)
{ return env_read(s, buf, n, deadline); }
bool proc_write(SockP s, const std::string &d)
{
    size_t pos = 0;
    Sock *k = s.get();
    point("proc_write");
    while (pos < d.size())
    {
        block("proc_write", [k] { return !k->open || hup(k) || can_write(k); }, -1);
        if (!k->open)
            return false;
        long r = do_write(k, d.data() + pos, d.size() - pos, false);
        if (r < 0 && errno != EAGAIN)
            return false;
        if (r > 0)
            pos += r;
    }
    return true;
}
bool is_sim_fd(int fd) { return fd >= FD0 || child_fds(); }

static int wait_io(Sock *s, bool rd)
{
    // blocking descriptor
    auto ok = [s, rd] { return rd ? can_read(s) : can_write(s) || hup(s); };
    block(rd ? "read" : "write", ok, -1);
    return 0;
}
static unsigned revents(int fd, unsigned ev)
{
    SockP s = get_fd(fd);
    if (!s)
        return POLLNVAL;
    unsigned r = 0;
    if ((ev & POLLIN) && can_read(s.get()))
        r |= POLLIN;
    if ((ev & POLLOUT) && can_write(s.get()))
        r |= POLLOUT;
    if (hup(s.get()) && !s->pipe_w)
        r |= POLLHUP;
    if (s->conn_err || (s->kind == S_STREAM && s->conn->d[s->side].rst))
        r |= POLLERR;
    if (s->kind == S_PIPE && s->pipe_w && s->conn->closed[0])
        r |= POLLERR;
    return r;
}
}
using namespace sim;

extern "C" {
int __wrap_socket(int domain, int type, int proto)
{
    point("socket");
    if (domain != AF_INET)
    {
        errno = EAFNOSUPPORT;
        return -1;
    }
    NoPreempt np;
    SockP s(new Sock);
    if (type & SOCK_NONBLOCK)
        s->nonblock = true;
    int fd = alloc_fd(s);
    if (fd >= 0 && (type & SOCK_CLOEXEC))
        g_cloexec.insert(fd);
    return fd;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t len)
{
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    const struct sockaddr_in *in = (const struct sockaddr_in *) a;
    s->ip = ntohl(in->sin_addr.s_addr);
    s->port = ntohs(in->sin_port);
    for (auto &l : listeners)
        if (s->port && l->port == s->port &&
            (!l->ip || !s->ip || l->ip == s->ip))
        {
            errno = EADDRINUSE;
            return -1;
        }
    return 0;
}
int __wrap_listen(int fd, int backlog)
{
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    NoPreempt np;
    s->kind = S_LISTEN;
    s->backlog_max = 128;
    listeners.push_back(s);
    dirty();
    return 0;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *len)
{
    point("accept");
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->backlog.empty())
    {
        if (s->nonblock)
        {
            errno = EAGAIN;
            return -1;
        }
        wait_io(s.get(), true);
    }
    NoPreempt np;
    SockP p = s->backlog.front();
    if (K.accept_fail_den && chance(ST_FAULT, 1, K.accept_fail_den))
    {
        s->backlog.pop_front();
        kill_conn(p->conn);
        count("fault.accept_aborted");
        errno = ECONNABORTED;
        return -1;
    }
    int nfd = alloc_fd(p);
    if (nfd < 0)
        return -1;
    s->backlog.pop_front();
    if (a && len)
    {
        struct sockaddr_in in;
        memset(&in, 0, sizeof in);
        in.sin_family = AF_INET;
        in.sin_addr.s_addr = htonl(p->peer_ip);
        in.sin_port = htons(p->peer_port);
        memcpy(a, &in, *len < sizeof in ? *len : sizeof in);
        *len = sizeof in;
    }
    log("accept conn %d fd %d", p->conn->id, nfd);
    return nfd;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *len, int fl)
{
    int r = __wrap_accept(fd, a, len);
    if (r >= 0)
    {
        NoPreempt np;
        SockP s = get_fd(r);
        if (s && (fl & SOCK_NONBLOCK))
            s->nonblock = true;
        if (fl & SOCK_CLOEXEC)
            g_cloexec.insert(r);
    }
    return r;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t len)
{
    point("connect");
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    const struct sockaddr_in *in = (const struct sockaddr_in *) a;
    NoPreempt np;
    if (s->kind == S_STREAM) { errno = EISCONN; return -1; }
    if (s->kind == S_CONNECTING)
    {
        errno = s->conn_err ? s->conn_err : EALREADY;
        return -1;
    }
    start_connect(s, ntohl(in->sin_addr.s_addr), ntohs(in->sin_port),
                  s->ip ? s->ip : 0x0a640001);
    log("connect %s:%d conn %d fd %d", ipstr(ntohl(in->sin_addr.s_addr)).c_str(),
        ntohs(in->sin_port), s->conn->id, fd);
    if (s->nonblock)
    {
        errno = EINPROGRESS;
        return -1;
    }
    Sock *k = s.get();
    if (!block("connect", [k] { return k->kind == S_STREAM || k->conn_err; },
               now() + 127 * SEC))
    {
        k->conn_err = ETIMEDOUT;
        count("fault.connect_timeout");
    }
    if (k->conn_err)
    {
        errno = k->conn_err;
        return -1;
    }
    return 0;
}
ssize_t __wrap_recv(int fd, void *buf, size_t n, int flags);
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    if (!is_sim_fd(fd))
        return __real_read(fd, buf, n);
    return __wrap_recv(fd, buf, n, 0);
}
ssize_t __wrap_recv(int fd, void *buf, size_t n, int flags)
{
    point("recv");
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->kind == S_CONNECTING)
    {
        errno = s->conn_err ? s->conn_err : ENOTCONN;
        return -1;
    }
    if (!s->conn) { errno = ENOTCONN; return -1; }
    if (!s->nonblock && !can_read(s.get()))
        wait_io(s.get(), true);
    NoPreempt np;
    return do_read(s.get(), (char *) buf, n, true);
}
ssize_t __wrap_send(int fd, const void *buf, size_t n, int flags);
ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    if (!is_sim_fd(fd))
        return __real_write(fd, buf, n);
    return __wrap_send(fd, buf, n, 0);
}
ssize_t __wrap_send(int fd, const void *buf, size_t n, int flags)
{
    point("send");
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->kind == S_CONNECTING)
    {
        errno = s->conn_err ? s->conn_err : ENOTCONN;
        return -1;
    }
    if (!s->conn) { errno = ENOTCONN; return -1; }
    if (!s->nonblock && !can_write(s.get()))
        wait_io(s.get(), false);
    NoPreempt np;
    return do_write(s.get(), (const char *) buf, n, true);
}
int __wrap_close(int fd)
{
    if (!is_sim_fd(fd))
        return __real_close(fd);
    point("close");
    NoPreempt np;
    SockP s = get_fd(fd);
    if (!s && child_fds())           // a program may try every number
    {
        errno = EBADF;
        return -1;
    }
    if (s && s->conn && s->kind != S_PIPE && !child_fds())
        log("close fd %d conn %d", fd, s->conn->id);
    if (!s)
    {
        count("probe.close_ebadf");
        log("close of bad fd %d", fd);
    }
    return sim_close_fd(fd);
}
int __wrap_shutdown(int fd, int how)
{
    point("shutdown");
    SockP s = get_fd(fd);
    if (!s || !s->conn) { errno = ENOTCONN; return -1; }
    NoPreempt np;
    if (how == SHUT_WR || how == SHUT_RDWR)
        send_fin(s->conn, 1 - s->side, false, self_actor());
    if (how == SHUT_RD || how == SHUT_RDWR)
        s->rd_shut = true;
    dirty();
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!is_sim_fd(fd))
        return __real_fcntl(fd, cmd, arg);
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (cmd == F_SETFD)
    {
        NoPreempt np;
        if (arg & FD_CLOEXEC)
            cur_cloexec().insert(fd);
        else
            cur_cloexec().erase(fd);
        return 0;
    }
    if (cmd == F_GETFD)
        return cur_cloexec().count(fd) ? FD_CLOEXEC : 0;
    if (cmd == F_SETFL)
    {
        s->nonblock = (arg & O_NONBLOCK) != 0;
        return 0;
    }
    if (cmd == F_GETFL)
        return s->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
    return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return __wrap_fcntl(fd, cmd, arg);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!is_sim_fd(fd))
        return __real_ioctl(fd, req, arg);
    SockP s = get_fd(fd);
    if (s && req == FIONBIO)
        s->nonblock = *(int *) arg != 0;
    return 0;
}
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_getsockopt(int fd, int level, int name, void *v, socklen_t *len)
{
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (name == SO_ERROR)
        *(int *) v = s->conn_err;
    else if (name == SO_RCVBUF || name == SO_SNDBUF)
        *(int *) v = (int) K.pipe_cap;
    else
        memset(v, 0, *len);
    return 0;
}
static int put_addr(uint32_t ip, uint16_t port, struct sockaddr *a, socklen_t *len)
{
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(ip);
    in.sin_port = htons(port);
    memcpy(a, &in, *len < sizeof in ? *len : sizeof in);
    *len = sizeof in;
    return 0;
}
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *len)
{
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->kind != S_STREAM) { errno = ENOTCONN; return -1; }
    return put_addr(s->peer_ip, s->peer_port, a, len);
}
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *len)
{
    SockP s = get_fd(fd);
    if (!s) { errno = EBADF; return -1; }
    return put_addr(s->ip, s->port, a, len);
}
static int do_pipe(int *fds, bool nb)
{
    NoPreempt np;
    std::shared_ptr<Conn> c(new Conn);
    SockP r(new Sock), w(new Sock);
    r->kind = w->kind = S_PIPE;
    r->conn = w->conn = c;
    r->side = 0;
    w->side = 1;
    w->pipe_w = true;
    r->nonblock = w->nonblock = nb;
    fds[0] = alloc_fd(r);
    if (fds[0] < 0)
        return -1;
    fds[1] = alloc_fd(w);
    if (fds[1] < 0)
    {
        int e = errno;
        sim_close_fd(fds[0]);
        errno = e;
        return -1;
    }
    return 0;
}
int __wrap_pipe(int *fds)
{
    if (!in_sim())
        return __real_pipe(fds);
    point("pipe");
    return do_pipe(fds, false);
}
int __wrap_pipe2(int *fds, int flags)
{
    point("pipe");
    int r = do_pipe(fds, (flags & O_NONBLOCK) != 0);
    if (r == 0 && (flags & O_CLOEXEC))
    {
        NoPreempt np;
        g_cloexec.insert(fds[0]);
        g_cloexec.insert(fds[1]);
    }
    return r;
}
int __wrap_dup(int fd)
{
    if (!is_sim_fd(fd) && !child_fds())
        return __real_dup(fd);
    SockP s = get_fd(fd);
    if (!s)
    {
        errno = EBADF;
        return -1;
    }
    NoPreempt np;
    if (child_fds())
    {   // lowest free number, as the child arranges its std descriptors
        FdTable *t = child_fds();
        int n = 0;
        while (t->count(n))
            n++;
        (*t)[n] = s;
        s->refs++;
        return n;
    }
    return alloc_fd(s);
}
int __wrap_dup2(int fd, int to)
{
    if (!is_sim_fd(fd) && !child_fds())
        return __real_dup2(fd, to);
    SockP s = get_fd(fd);
    if (!s || !child_fds())
    {
        errno = EBADF;
        return -1;
    }
    NoPreempt np;
    FdTable *t = child_fds();
    if (t->count(to))
        sim_close_fd(to);
    (*t)[to] = s;
    s->refs++;
    return to;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout)
{
    if (!in_sim())
        return __real_poll(p, n, timeout);
    point("poll");
    NoPreempt np;
    if (take_eintr())
    {
        errno = EINTR;
        return -1;
    }
    int r = 0;
    auto scan = [&] {
        r = 0;
        for (nfds_t i = 0; i < n; i++)
        {
            p[i].revents = p[i].fd < 0 ? 0 : revents(p[i].fd, p[i].events);
            if (p[i].revents)
                r++;
        }
        return r > 0;
    };
    if (scan() || timeout == 0)
        return r;
    int sig0 = signal_seq();
    bool mainthr = is_main_tid();
    block("poll", [&] { return (mainthr && signal_seq() != sig0) || scan(); },
          timeout < 0 ? -1 : now() + (i64) timeout * 1000);
    if (take_eintr())
    {
        errno = EINTR;
        return -1;
    }
    scan();
    return r;
}
int __wrap_select(int nfds, fd_set *rd, fd_set *wr, fd_set *ex,
                  struct timeval *tv)
{
    std::vector<struct pollfd> v;
    for (int i = 0; i < nfds; i++)
    {
        struct pollfd p;
        p.fd = i;
        p.events = 0;
        if (rd && FD_ISSET(i, rd)) p.events |= POLLIN;
        if (wr && FD_ISSET(i, wr)) p.events |= POLLOUT;
        if (p.events)
            v.push_back(p);
    }
    int r = __wrap_poll(v.data(), v.size(),
                        tv ? tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1);
    if (rd) FD_ZERO(rd);
    if (wr) FD_ZERO(wr);
    if (ex) FD_ZERO(ex);
    for (auto &p : v)
    {
        if (rd && (p.events & POLLIN) && (p.revents & (POLLIN|POLLHUP|POLLERR)))
            FD_SET(p.fd, rd);
        if (wr && (p.events & POLLOUT) && (p.revents & (POLLOUT|POLLERR)))
            FD_SET(p.fd, wr);
    }
    return r;
}
int __wrap_getaddrinfo(const char *node, const char *service,
                       const struct addrinfo *hints, struct addrinfo **res)
{
    point("getaddrinfo");
    NoPreempt np;
    uint32_t ip = 0;
    if (node && *node)
        ip = dns(node, false);
    if (ip == 0xffffffff ||
        (node && *node && !isdigit((unsigned char) *node) && K.dns_fail_den &&
         chance(ST_FAULT, 1, K.dns_fail_den)))
    {
        count("fault.dns_failure");
        return EAI_NONAME;
    }
    if (!node && !(hints && (hints->ai_flags & AI_PASSIVE)))
        ip = 0x7f000001;
    struct addrinfo *ai = (struct addrinfo *) calloc(1, sizeof *ai);
    struct sockaddr_in *in = (struct sockaddr_in *) calloc(1, sizeof *in);
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = htonl(ip);
    in->sin_port = htons(service ? atoi(service) : 0);
    ai->ai_family = AF_INET;
    ai->ai_socktype = SOCK_STREAM;
    ai->ai_addr = (struct sockaddr *) in;
    ai->ai_addrlen = sizeof *in;
    *res = ai;
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *ai)
{
    while (ai)
    {
        struct addrinfo *n = ai->ai_next;
        free(ai->ai_addr);
        free(ai->ai_canonname);
        free(ai);
        ai = n;
    }
}
int __wrap_getnameinfo(const struct sockaddr *sa, socklen_t salen, char *host,
                       socklen_t hostlen, char *serv, socklen_t servlen,
                       int flags)
{
    const struct sockaddr_in *in = (const struct sockaddr_in *) sa;
    if (host && hostlen)
        snprintf(host, hostlen, "%s",
                 ipstr(ntohl(in->sin_addr.s_addr)).c_str());
    if (serv && servlen)
        snprintf(serv, servlen, "%d", ntohs(in->sin_port));
    return 0;
}
struct hostent *__wrap_gethostbyaddr(const void *, socklen_t, int) { return 0; }
// tcp wrappers (libwrap) are not linked
struct request_info *request_init(struct request_info *r, ...) { return r; }
int hosts_access(struct request_info *) { return 1; }
}
namespace sim {
bool has_listener(int port)
{
    for (auto &l : listeners)
        if (l->port == port && l->proxy)
            return true;
    return false;
}
}
