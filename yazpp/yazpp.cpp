// Re-implementation of the parts of YAZ++ (yazpp) which metaproxy uses.
// YAZ++ is a third-party dependency that is not installed in this sandbox.
// This stand-in keeps its interface and its event-loop semantics (state
// machine of PDU_Assoc, close_session, notification order) and runs over
// the real libyaz COMSTACK.
#include <yazpp/gdu.h>
#include <yazpp/socket-manager.h>
#include <yazpp/pdu-assoc.h>
#include <yazpp/z-assoc.h>
#include <yazpp/timestat.h>
#include <yazpp/limit-connect.h>
#include <yazpp/z-query.h>
#include <yazpp/record-cache.h>
#include <yazpp/cql2rpn.h>

#include <yaz/log.h>
#include <yaz/poll.h>
#include <yaz/tcpip.h>
#include <yaz/pquery.h>
#include <yaz/querytowrbuf.h>
#include <yaz/copy_types.h>
#include <errno.h>
#include <string.h>
#include <time.h>
#include <assert.h>
#include <list>
#include <vector>
#include <map>
#include <string>
#include <deque>

using namespace yazpp_1;

ISocketObserver::~ISocketObserver() {}
ISocketObservable::~ISocketObservable() {}
IPDU_Observer::~IPDU_Observer() {}
IPDU_Observable::~IPDU_Observable() {}

// ---------------------------------------------------------------- GDU
void GDU::base(Z_GDU *gdu, ODR encode)
{
    m_decode = odr_createmem(ODR_DECODE);
    m_gdu = 0;
    m_size = 0;
    if (gdu && z_GDU(encode, &gdu, 0, "encode"))
    {
        int len;
        char *buf = odr_getbuf(encode, &len, 0);
        odr_setbuf(m_decode, buf, len, 0);
        if (!z_GDU(m_decode, &m_gdu, 0, 0))
            m_gdu = 0;
        m_size = len;
    }
    odr_destroy(encode);
}
GDU::GDU(Z_APDU *apdu)
{
    ODR encode = odr_createmem(ODR_ENCODE);
    Z_GDU *gdu = (Z_GDU *) odr_malloc(encode, sizeof(*gdu));
    gdu->which = Z_GDU_Z3950;
    gdu->u.z3950 = apdu;
    base(apdu ? gdu : 0, encode);
}
GDU::GDU(Z_GDU *gdu) { base(gdu, odr_createmem(ODR_ENCODE)); }
GDU::GDU() { base(0, odr_createmem(ODR_ENCODE)); }
GDU::GDU(const GDU &g) { base(g.get(), odr_createmem(ODR_ENCODE)); }
GDU::~GDU() { odr_destroy(m_decode); }
GDU &GDU::operator=(const GDU &g)
{
    if (this != &g)
    {
        ODR old = m_decode;
        base(g.get(), odr_createmem(ODR_ENCODE));
        odr_destroy(old);
    }
    return *this;
}
GDU &GDU::operator=(Z_APDU *apdu)
{
    ODR old = m_decode;
    ODR encode = odr_createmem(ODR_ENCODE);
    Z_GDU *gdu = (Z_GDU *) odr_malloc(encode, sizeof(*gdu));
    gdu->which = Z_GDU_Z3950;
    gdu->u.z3950 = apdu;
    base(apdu ? gdu : 0, encode);
    odr_destroy(old);
    return *this;
}
GDU &GDU::operator=(Z_GDU *gdu)
{
    ODR old = m_decode;
    base(gdu, odr_createmem(ODR_ENCODE));
    odr_destroy(old);
    return *this;
}

// ------------------------------------------------------- SocketManager
namespace {
struct SockEntry {
    ISocketObserver *observer;
    int fd;
    int mask;
    int timeout;
    int timeout_this;
    time_t last_activity;
};
struct SockEvent {
    ISocketObserver *observer;
    int event;
};
}
class SocketManager::Rep {
  public:
    std::list<SockEntry> entries;
    std::deque<SockEvent> queue;
    SockEntry *lookup(ISocketObserver *o)
    {
        for (auto &e : entries)
            if (e.observer == o)
                return &e;
        return 0;
    }
    void removeEvent(ISocketObserver *o)
    {
        for (auto it = queue.begin(); it != queue.end();)
            if (it->observer == o)
                it = queue.erase(it);
            else
                ++it;
    }
};
SocketManager::SocketManager() : m_p(new Rep) {}
SocketManager::~SocketManager()
{
    deleteObservers();
    delete m_p;
}
void SocketManager::addObserver(int fd, ISocketObserver *observer)
{
    SockEntry *e = m_p->lookup(observer);
    if (!e)
    {
        m_p->entries.push_front(SockEntry());
        e = &m_p->entries.front();
        e->observer = observer;
    }
    e->fd = fd;
    e->mask = 0;
    e->timeout = -1;
    e->timeout_this = -1;
    e->last_activity = 0;
}
void SocketManager::deleteObserver(ISocketObserver *observer)
{
    m_p->removeEvent(observer);
    for (auto it = m_p->entries.begin(); it != m_p->entries.end(); ++it)
        if (it->observer == observer)
        {
            m_p->entries.erase(it);
            return;
        }
}
void SocketManager::deleteObservers()
{
    m_p->entries.clear();
    m_p->queue.clear();
}
void SocketManager::maskObserver(ISocketObserver *observer, int mask)
{
    SockEntry *e = m_p->lookup(observer);
    if (e)
        e->mask = mask;
}
void SocketManager::timeoutObserver(ISocketObserver *observer, int timeout)
{
    SockEntry *e = m_p->lookup(observer);
    if (e)
        e->timeout = timeout;
}
int SocketManager::getNumberOfObservers()
{
    return (int) m_p->entries.size();
}
int SocketManager::processEvent()
{
    if (!m_p->queue.empty())
    {
        SockEvent ev = m_p->queue.front();
        m_p->queue.pop_front();
        ev.observer->socketNotify(ev.event);
        return 1;
    }
    if (m_p->entries.empty())
        return 0;
    std::vector<yaz_poll_fd> fds(m_p->entries.size());
    time_t now = time(0);
    int timeout = -1;
    size_t i = 0;
    for (auto &e : m_p->entries)
    {
        fds[i].fd = e.fd;
        int im = 0;
        if (e.mask & SOCKET_OBSERVE_READ)
            im |= yaz_poll_read;
        if (e.mask & SOCKET_OBSERVE_WRITE)
            im |= yaz_poll_write;
        if (e.mask & SOCKET_OBSERVE_EXCEPT)
            im |= yaz_poll_except;
        fds[i].input_mask = (enum yaz_poll_mask) im;
        fds[i].output_mask = yaz_poll_none;
        fds[i].client_data = 0;
        if (e.timeout > 0 ||
            (e.timeout == 0 && (e.mask & SOCKET_OBSERVE_WRITE) == 0))
        {
            long t = e.timeout;
            if (e.last_activity)
                t -= now - e.last_activity;
            else
                e.last_activity = now;
            if (t < 0 || t > 2147483646)
                t = 0;
            if (timeout == -1 || t < timeout)
                timeout = (int) t;
            e.timeout_this = (int) t;
        }
        else
            e.timeout_this = -1;
        i++;
    }
    int res = yaz_poll(&fds[0], (int) fds.size(), timeout, 0);
    if (res < 0)
    {
        if (errno != EINTR)
            yaz_log(YLOG_ERRNO|YLOG_WARN, "yaz_poll");
        return 1;
    }
    now = time(0);
    i = 0;
    for (auto &e : m_p->entries)
    {
        int om = fds[i].output_mask;
        int mask = 0;
        if (om & yaz_poll_read)
            mask |= SOCKET_OBSERVE_READ;
        if (om & yaz_poll_write)
            mask |= SOCKET_OBSERVE_WRITE;
        if (om & yaz_poll_except)
            mask |= SOCKET_OBSERVE_EXCEPT;
        if (mask)
        {
            e.last_activity = now;
            m_p->queue.push_back(SockEvent{e.observer, mask});
        }
        else if (res == 0 && timeout != -1 && e.timeout_this == timeout)
        {
            e.last_activity = now;
            m_p->queue.push_back(SockEvent{e.observer, SOCKET_OBSERVE_TIMEOUT});
        }
        i++;
    }
    if (!m_p->queue.empty())
    {
        SockEvent ev = m_p->queue.front();
        m_p->queue.pop_front();
        ev.observer->socketNotify(ev.event);
    }
    return 1;
}

// ------------------------------------------------------------ PDU_Assoc
class PDU_Assoc::Rep {
  public:
    enum State { Connecting, Listen, Ready, Closed, Writing, Accepting };
    State state;
    ISocketObservable *so;
    COMSTACK cs;
    PDU_Assoc *parent;
    PDU_Assoc *children;
    PDU_Assoc *next;
    std::deque<std::string> queue_out;
    char *input_buf;
    int input_len;
    int *destroyed;
    int idle;
    bool session_is_dead;
    char *cert_fname;
    Rep(ISocketObservable *o, COMSTACK c)
        : state(Closed), so(o), cs(c), parent(0), children(0), next(0),
          input_buf(0), input_len(0), destroyed(0), idle(0),
          session_is_dead(false), cert_fname(0) {}
};
static int io_mask(COMSTACK cs)
{
    int m = 0;
    if (cs->io_pending & CS_WANT_WRITE)
        m |= SOCKET_OBSERVE_WRITE;
    if (cs->io_pending & CS_WANT_READ)
        m |= SOCKET_OBSERVE_READ;
    return m;
}
PDU_Assoc::PDU_Assoc(ISocketObservable *so)
    : m_p(new Rep(so, 0)), m_PDU_Observer(0) {}
PDU_Assoc::PDU_Assoc(ISocketObservable *so, COMSTACK cs)
    : m_p(new Rep(so, cs)), m_PDU_Observer(0)
{
    int mask = io_mask(cs);
    so->addObserver(cs_fileno(cs), this);
    if (!mask)
    {
        m_p->state = Rep::Ready;
        so->maskObserver(this, SOCKET_OBSERVE_READ|SOCKET_OBSERVE_EXCEPT);
    }
    else
    {
        m_p->state = Rep::Accepting;
        so->maskObserver(this, mask|SOCKET_OBSERVE_EXCEPT);
    }
}
PDU_Assoc::~PDU_Assoc()
{
    xfree(m_p->cert_fname);
    xfree(m_p->input_buf);
    delete m_p;
}
IPDU_Observable *PDU_Assoc::clone() { return new PDU_Assoc(m_p->so); }
void PDU_Assoc::socketNotify(int event)
{
    if (event & SOCKET_OBSERVE_EXCEPT)
    {
        shutdown();
        m_PDU_Observer->failNotify();
        return;
    }
    else if (event & SOCKET_OBSERVE_TIMEOUT)
    {
        m_PDU_Observer->timeoutNotify();
        return;
    }
    int mask;
    switch (m_p->state)
    {
    case Rep::Accepting:
        if (!cs_accept(m_p->cs))
        {
            shutdown();
            m_PDU_Observer->failNotify();
        }
        else
        {
            mask = io_mask(m_p->cs);
            if (!mask)
            {
                m_p->state = Rep::Ready;
                flush_PDU();
            }
            else
                m_p->so->maskObserver(this, mask|SOCKET_OBSERVE_EXCEPT);
        }
        break;
    case Rep::Connecting:
        if ((event & SOCKET_OBSERVE_READ) && (event & SOCKET_OBSERVE_WRITE))
        {   // both read and write readiness: connect failed
            shutdown();
            m_PDU_Observer->failNotify();
        }
        else
        {
            int res = cs_rcvconnect(m_p->cs);
            if (res == 1)
                m_p->so->maskObserver(this,
                                      io_mask(m_p->cs)|SOCKET_OBSERVE_EXCEPT);
            else if (res < 0)
            {
                shutdown();
                m_PDU_Observer->failNotify();
            }
            else
            {
                m_p->state = Rep::Ready;
                if (m_PDU_Observer)
                    m_PDU_Observer->connectNotify();
                flush_PDU();
            }
        }
        break;
    case Rep::Listen:
        if (event & SOCKET_OBSERVE_READ)
        {
            int res = cs_listen(m_p->cs, 0, 0);
            if (res == 1)
                return;
            if (res < 0)
            {
                yaz_log(YLOG_WARN|YLOG_ERRNO, "cs_listen failed");
                return;
            }
            COMSTACK new_line = cs_accept(m_p->cs);
            if (!new_line)
                return;
            childNotify(new_line);
        }
        break;
    case Rep::Writing:
        if (event & (SOCKET_OBSERVE_READ|SOCKET_OBSERVE_WRITE))
            flush_PDU();
        break;
    case Rep::Ready:
        if (event & (SOCKET_OBSERVE_READ|SOCKET_OBSERVE_WRITE))
        {
            do
            {
                int res = cs_get(m_p->cs, &m_p->input_buf, &m_p->input_len);
                if (res == 1)
                {
                    m_p->so->maskObserver(this, io_mask(m_p->cs)
                                          |SOCKET_OBSERVE_EXCEPT);
                    return;
                }
                else if (res <= 0)
                {
                    shutdown();
                    if (m_PDU_Observer)
                        m_PDU_Observer->failNotify();
                    return;
                }
                int destroyed = 0;
                m_p->destroyed = &destroyed;
                if (!m_PDU_Observer)
                    return;
                m_PDU_Observer->recv_PDU(m_p->input_buf, res);
                if (destroyed)
                    return;
                m_p->destroyed = 0;
            } while (m_p->cs && cs_more(m_p->cs));
            if (m_p->cs && m_p->state == Rep::Ready)
                m_p->so->maskObserver(this, SOCKET_OBSERVE_EXCEPT|
                                      SOCKET_OBSERVE_READ);
        }
        break;
    case Rep::Closed:
        shutdown();
        m_PDU_Observer->failNotify();
        break;
    }
}
void PDU_Assoc::close_session()
{
    m_p->session_is_dead = true;
    if (m_p->queue_out.empty())
    {
        shutdown();
        m_PDU_Observer->failNotify();
    }
}
void PDU_Assoc::shutdown()
{
    for (PDU_Assoc *ch = m_p->children; ch; ch = ch->m_p->next)
        ch->shutdown();
    m_p->so->deleteObserver(this);
    m_p->state = Rep::Closed;
    if (m_p->cs)
        cs_close(m_p->cs);
    m_p->cs = 0;
    m_p->queue_out.clear();
    xfree(m_p->input_buf);
    m_p->input_buf = 0;
    m_p->input_len = 0;
}
void PDU_Assoc::destroy()
{
    shutdown();
    if (m_p->destroyed)
        *m_p->destroyed = 1;
    if (m_p->parent)
    {
        PDU_Assoc **c = &m_p->parent->m_p->children;
        while (*c != this)
        {
            assert(*c);
            c = &(*c)->m_p->next;
        }
        *c = (*c)->m_p->next;
    }
    PDU_Assoc **c = &m_p->children;
    while (*c)
    {
        PDU_Assoc *here = *c;
        *c = (*c)->m_p->next;
        here->m_p->parent = 0;
        delete here;
    }
}
int PDU_Assoc::flush_PDU()
{
    if (m_p->state != Rep::Ready && m_p->state != Rep::Writing)
        return 1;
    while (1)
    {
        if (m_p->queue_out.empty())
        {
            m_p->state = Rep::Ready;
            m_p->so->maskObserver(this,
                                  SOCKET_OBSERVE_EXCEPT|SOCKET_OBSERVE_READ);
            if (m_p->session_is_dead)
            {
                shutdown();
                m_PDU_Observer->failNotify();
            }
            return 0;
        }
        std::string &q = m_p->queue_out.front();
        int r = cs_put(m_p->cs, (char *) q.data(), (int) q.length());
        if (r < 0)
        {
            shutdown();
            m_PDU_Observer->failNotify();
            return r;
        }
        if (r == 1)
        {
            m_p->state = Rep::Writing;
            m_p->so->maskObserver(this, io_mask(m_p->cs)|SOCKET_OBSERVE_EXCEPT|
                                  SOCKET_OBSERVE_WRITE);
            return r;
        }
        m_p->queue_out.pop_front();
    }
}
int PDU_Assoc::send_PDU(const char *buf, int len)
{
    if (!m_p->cs)
        return -1;
    bool is_idle = m_p->queue_out.empty();
    m_p->queue_out.push_back(std::string(buf, len));
    if (is_idle)
        return flush_PDU();
    return 0;
}
COMSTACK PDU_Assoc::get_comstack() { return m_p->cs; }
void PDU_Assoc::set_cert_fname(const char *fname)
{
    xfree(m_p->cert_fname);
    m_p->cert_fname = fname ? xstrdup(fname) : 0;
}
int PDU_Assoc::listen(IPDU_Observer *observer, const char *addr)
{
    if (*addr == '\0')
    {
        m_p->so->deleteObserver(this);
        m_p->state = Rep::Closed;
        if (m_p->cs)
            cs_close(m_p->cs);
        m_p->cs = 0;
        m_p->queue_out.clear();
        return 0;
    }
    shutdown();
    m_PDU_Observer = observer;
    void *ap;
    COMSTACK cs = cs_create_host(addr, 2, &ap);
    if (!cs)
        return -1;
    if (m_p->cert_fname)
        cs_set_ssl_certificate_file(cs, m_p->cert_fname);
    if (cs_bind(cs, ap, CS_SERVER) < 0)
    {
        cs_close(cs);
        return -2;
    }
    m_p->cs = cs;
    m_p->so->addObserver(cs_fileno(cs), this);
    m_p->so->maskObserver(this, SOCKET_OBSERVE_READ|SOCKET_OBSERVE_EXCEPT);
    m_p->state = Rep::Listen;
    return 0;
}
void PDU_Assoc::idleTime(int t)
{
    m_p->idle = t;
    m_p->so->timeoutObserver(this, t);
}
int PDU_Assoc::connect(IPDU_Observer *observer, const char *addr)
{
    shutdown();
    m_PDU_Observer = observer;
    void *ap;
    m_p->cs = cs_create_host(addr, 2, &ap);
    if (!m_p->cs)
        return -1;
    int res = cs_connect(m_p->cs, ap);
    if (res < 0)
    {
        cs_close(m_p->cs);
        m_p->cs = 0;
        return -1;
    }
    int fd = cs_fileno(m_p->cs);
    m_p->so->addObserver(fd, this);
    if (res == 0)
    {   // connect complete
        m_p->state = Rep::Connecting;
        m_p->so->maskObserver(this, SOCKET_OBSERVE_EXCEPT|SOCKET_OBSERVE_WRITE);
    }
    else
    {
        m_p->state = Rep::Connecting;
        m_p->so->maskObserver(this, io_mask(m_p->cs)|SOCKET_OBSERVE_EXCEPT);
    }
    return 0;
}
void PDU_Assoc::childNotify(COMSTACK cs)
{
    PDU_Assoc *new_observable = new PDU_Assoc(m_p->so, cs);
    new_observable->m_p->next = m_p->children;
    m_p->children = new_observable;
    new_observable->m_p->parent = this;
    new_observable->m_PDU_Observer =
        m_PDU_Observer->sessionNotify(new_observable, cs_fileno(cs));
    if (!new_observable->m_PDU_Observer)
    {
        new_observable->shutdown();
        new_observable->destroy();
        delete new_observable;
    }
}
const char *PDU_Assoc::getpeername()
{
    return m_p->cs ? cs_addrstr(m_p->cs) : 0;
}

// -------------------------------------------------------------- Z_Assoc
Z_Assoc::Z_Assoc(IPDU_Observable *o) : m_PDU_Observable(o), m_hostname(0)
{
    m_odr_in = odr_createmem(ODR_DECODE);
    m_odr_out = odr_createmem(ODR_ENCODE);
    m_odr_print = odr_createmem(ODR_PRINT);
}
Z_Assoc::~Z_Assoc()
{
    m_PDU_Observable->destroy();
    delete m_PDU_Observable;
    odr_destroy(m_odr_print);
    odr_destroy(m_odr_out);
    odr_destroy(m_odr_in);
    delete [] m_hostname;
}
void Z_Assoc::timeout(int t) { m_PDU_Observable->idleTime(t); }
void Z_Assoc::close() { m_PDU_Observable->close_session(); }
void Z_Assoc::recv_PDU(const char *buf, int len)
{
    Z_GDU *gdu = decode_GDU(buf, len);
    if (gdu)
        recv_GDU(gdu, len);
    else
        close();
}
Z_GDU *Z_Assoc::decode_GDU(const char *buf, int len)
{
    Z_GDU *gdu = 0;
    odr_reset(m_odr_in);
    odr_setbuf(m_odr_in, (char *) buf, len, 0);
    if (!z_GDU(m_odr_in, &gdu, 0, 0))
        return 0;
    return gdu;
}
int Z_Assoc::encode_GDU(Z_GDU *gdu, char **buf, int *len)
{
    if (!z_GDU(m_odr_out, &gdu, 0, "encode"))
    {
        odr_reset(m_odr_out);
        return -1;
    }
    *buf = odr_getbuf(m_odr_out, len, 0);
    odr_reset(m_odr_out);
    return *len;
}
int Z_Assoc::send_GDU(Z_GDU *gdu, int *plen)
{
    char *buf;
    int len;
    if (encode_GDU(gdu, &buf, &len) > 0)
    {
        if (plen)
            *plen = len;
        return m_PDU_Observable->send_PDU(buf, len);
    }
    return -1;
}
int Z_Assoc::send_Z_PDU(Z_APDU *apdu, int *plen)
{
    ODR o = odr_createmem(ODR_ENCODE);
    Z_GDU *gdu = (Z_GDU *) odr_malloc(o, sizeof(*gdu));
    gdu->which = Z_GDU_Z3950;
    gdu->u.z3950 = apdu;
    int r = send_GDU(gdu, plen);
    odr_destroy(o);
    return r;
}
int Z_Assoc::client(const char *addr)
{
    delete [] m_hostname;
    m_hostname = new char[strlen(addr) + 1];
    strcpy(m_hostname, addr);
    return m_PDU_Observable->connect(this, addr);
}
int Z_Assoc::server(const char *addr)
{
    delete [] m_hostname;
    m_hostname = new char[strlen(addr) + 1];
    strcpy(m_hostname, addr);
    return m_PDU_Observable->listen(this, addr);
}

// ------------------------------------------------- TimeStat/LimitConnect
TimeStat::TimeStat(int sz) : m_sec(0), m_ptr(0), m_size(sz)
{
    m_bucket = new int[m_size];
    for (int i = 0; i < m_size; i++)
        m_bucket[i] = 0;
}
TimeStat::~TimeStat() { delete [] m_bucket; }
void TimeStat::roll(long now)
{
    if (now >= m_sec)
    {
        long d = now - m_sec;
        if (d > m_size)
            d = m_size;
        while (--d >= 0)
        {
            if (++m_ptr == m_size)
                m_ptr = 0;
            m_bucket[m_ptr] = 0;
        }
        m_sec = now;
    }
}
void TimeStat::add_bytes(int b)
{
    roll((long) time(0));
    m_bucket[m_ptr] += b;
}
int TimeStat::get_total()
{
    roll((long) time(0));
    int t = 0;
    for (int i = 0; i < m_size; i++)
        t += m_bucket[i];
    return t;
}
class LimitConnect::Rep {
  public:
    int period;
    std::map<std::string, TimeStat *> peers;
};
LimitConnect::LimitConnect() : m_p(new Rep) { m_p->period = 60; }
LimitConnect::~LimitConnect()
{
    cleanup(true);
    delete m_p;
}
void LimitConnect::set_period(int sec) { m_p->period = sec; }
void LimitConnect::add_connect(const char *peername)
{
    TimeStat *&t = m_p->peers[peername];
    if (!t)
        t = new TimeStat(m_p->period);
    t->add_bytes(1);
}
int LimitConnect::get_total(const char *peername)
{
    auto it = m_p->peers.find(peername);
    return it == m_p->peers.end() ? 0 : it->second->get_total();
}
void LimitConnect::cleanup(bool all)
{
    for (auto it = m_p->peers.begin(); it != m_p->peers.end();)
        if (all || it->second->get_total() == 0)
        {
            delete it->second;
            it = m_p->peers.erase(it);
        }
        else
            ++it;
}

// ---------------------------------------------------------- Yaz_Z_Query
Yaz_Z_Query::Yaz_Z_Query() : m_buf(0), m_len(0)
{
    odr_encode = odr_createmem(ODR_ENCODE);
    odr_decode = odr_createmem(ODR_DECODE);
    odr_print = odr_createmem(ODR_PRINT);
}
Yaz_Z_Query::Yaz_Z_Query(const Yaz_Z_Query &q) : Yaz_Z_Query() { *this = q; }
Yaz_Z_Query &Yaz_Z_Query::operator=(const Yaz_Z_Query &p)
{
    if (this != &p)
    {
        if (!p.m_buf)
        {
            m_buf = 0;
            m_len = 0;
        }
        else
        {
            odr_reset(odr_encode);
            m_len = p.m_len;
            m_buf = (char *) odr_malloc(odr_encode, m_len);
            memcpy(m_buf, p.m_buf, m_len);
        }
    }
    return *this;
}
Yaz_Z_Query::~Yaz_Z_Query()
{
    odr_destroy(odr_encode);
    odr_destroy(odr_decode);
    odr_destroy(odr_print);
}
int Yaz_Z_Query::set_rpn(const char *rpn)
{
    ODR o = odr_createmem(ODR_ENCODE);
    Z_Query *q = (Z_Query *) odr_malloc(o, sizeof(*q));
    q->which = Z_Query_type_1;
    q->u.type_1 = p_query_rpn(o, rpn);
    int ok = q->u.type_1 ? 0 : -1;
    if (!ok)
        set_Z_Query(q);
    odr_destroy(o);
    return ok;
}
void Yaz_Z_Query::set_Z_Query(Z_Query *z_query)
{
    odr_reset(odr_encode);
    if (!z_Query(odr_encode, &z_query, 0, 0))
    {
        m_buf = 0;
        m_len = 0;
        return;
    }
    m_buf = odr_getbuf(odr_encode, &m_len, 0);
}
Z_Query *Yaz_Z_Query::get_Z_Query()
{
    Z_Query *query = 0;
    if (!m_buf)
        return 0;
    odr_reset(odr_decode);
    odr_setbuf(odr_decode, m_buf, m_len, 0);
    if (!z_Query(odr_decode, &query, 0, 0))
        return 0;
    return query;
}
void Yaz_Z_Query::print(char *str, size_t len)
{
    Z_Query *q = get_Z_Query();
    if (len)
        *str = 0;
    if (q)
    {
        WRBUF w = wrbuf_alloc();
        yaz_query_to_wrbuf(w, q);
        strncpy(str, wrbuf_cstr(w), len - 1);
        str[len - 1] = 0;
        wrbuf_destroy(w);
    }
}
int Yaz_Z_Query::match(const Yaz_Z_Query *other)
{
    if (m_len != other->m_len)
        return 0;
    if (!m_buf || !other->m_buf)
        return 0;
    return memcmp(m_buf, other->m_buf, m_len) == 0;
}

// ---------------------------------------------------------- RecordCache
namespace yazpp_1 {
struct RecordCache_Entry {
    Odr_int m_offset;
    Z_NamePlusRecord *m_record;
    std::string m_comp;
    std::string m_recbuf;
    RecordCache_Entry *m_next;
};
}
static std::string enc_comp(Z_RecordComposition *comp)
{
    std::string s;
    if (!comp)
        return s;
    ODR o = odr_createmem(ODR_ENCODE);
    if (z_RecordComposition(o, &comp, 1, 0))
    {
        int len;
        char *b = odr_getbuf(o, &len, 0);
        s.assign(b, len);
    }
    odr_destroy(o);
    return s;
}
RecordCache::RecordCache()
    : m_mem(nmem_create()), m_entries(0), m_searchRequest(0),
      m_presentRequest(0), m_max_size(200000) {}
RecordCache::~RecordCache()
{
    clear();
    nmem_destroy(m_mem);
}
void RecordCache::set_max_size(int sz) { m_max_size = sz; }
void RecordCache::clear()
{
    while (m_entries)
    {
        RecordCache_Entry *n = m_entries->m_next;
        delete m_entries;
        m_entries = n;
    }
    nmem_reset(m_mem);
}
void RecordCache::copy_searchRequest(Z_SearchRequest *) {}
void RecordCache::copy_presentRequest(Z_PresentRequest *) {}
void RecordCache::add(ODR o, Z_NamePlusRecordList *npr, Odr_int start,
                      Z_RecordComposition *comp)
{
    size_t total = 0;
    for (RecordCache_Entry *e = m_entries; e; e = e->m_next)
        total += e->m_recbuf.size();
    if (total > (size_t) m_max_size)
        return;
    for (int i = 0; i < npr->num_records; i++)
    {
        Z_NamePlusRecord *r = npr->records[i];
        ODR enc = odr_createmem(ODR_ENCODE);
        if (z_NamePlusRecord(enc, &r, 0, 0))
        {
            int len;
            char *b = odr_getbuf(enc, &len, 0);
            RecordCache_Entry *e = new RecordCache_Entry;
            e->m_offset = start + i;
            e->m_comp = enc_comp(comp);
            e->m_recbuf.assign(b, len);
            ODR dec = odr_createmem(ODR_DECODE);
            odr_setbuf(dec, b, len, 0);
            e->m_record = 0;
            z_NamePlusRecord(dec, &e->m_record, 0, 0);
            nmem_transfer(m_mem, odr_getmem(dec));
            odr_destroy(dec);
            e->m_next = m_entries;
            m_entries = e;
        }
        odr_destroy(enc);
    }
}
int RecordCache::match(RecordCache_Entry *entry, Odr_oid *syntax,
                       Odr_int offset, Z_RecordComposition *comp)
{
    return entry->m_offset == offset && entry->m_record &&
        entry->m_record->which == Z_NamePlusRecord_databaseRecord &&
        entry->m_record->u.databaseRecord->direct_reference && syntax &&
        !oid_oidcmp(entry->m_record->u.databaseRecord->direct_reference,
                    syntax) &&
        entry->m_comp == enc_comp(comp);
}
int RecordCache::lookup(ODR o, Z_NamePlusRecordList **npr, Odr_int start,
                        int num, Odr_oid *syntax, Z_RecordComposition *comp)
{
    std::vector<RecordCache_Entry *> hit;
    for (int i = 0; i < num; i++)
    {
        RecordCache_Entry *e;
        for (e = m_entries; e; e = e->m_next)
            if (match(e, syntax, start + i, comp))
                break;
        if (!e)
            return 0;
        hit.push_back(e);
    }
    *npr = (Z_NamePlusRecordList *) odr_malloc(o, sizeof(**npr));
    (*npr)->num_records = num;
    (*npr)->records = (Z_NamePlusRecord **)
        odr_malloc(o, num * sizeof(Z_NamePlusRecord *));
    for (int i = 0; i < num; i++)
    {
        char *b = (char *) odr_malloc(o, hit[i]->m_recbuf.size());
        memcpy(b, hit[i]->m_recbuf.data(), hit[i]->m_recbuf.size());
        ODR dec = odr_createmem(ODR_DECODE);
        odr_setbuf(dec, b, hit[i]->m_recbuf.size(), 0);
        (*npr)->records[i] = 0;
        z_NamePlusRecord(dec, &(*npr)->records[i], 0, 0);
        nmem_transfer(odr_getmem(o), odr_getmem(dec));
        odr_destroy(dec);
    }
    return 1;
}

// ---------------------------------------------------------- Yaz_cql2rpn
Yaz_cql2rpn::Yaz_cql2rpn() : m_transform(0) {}
Yaz_cql2rpn::~Yaz_cql2rpn()
{
    if (m_transform)
        cql_transform_close(m_transform);
}
bool Yaz_cql2rpn::parse_spec_file(const char *fname, int *error)
{
    *error = 0;
    cql_transform_close(m_transform);
    m_transform = cql_transform_open_fname(fname);
    return m_transform ? true : false;
}
int Yaz_cql2rpn::query_transform(const char *cql_query, Z_RPNQuery **rpnquery,
                                 ODR o, char **addinfop)
{
    const char *addinfo = 0;
    if (!m_transform)
        return -3;
    CQL_parser cp = cql_parser_create();
    int r = cql_parser_string(cp, cql_query);
    if (r)
        r = 10; // YAZ_SRW_QUERY_SYNTAX_ERROR
    else
    {
        char rpn_buf[10240];
        r = cql_transform_buf(m_transform, cql_parser_result(cp), rpn_buf,
                              sizeof(rpn_buf)-1);
        if (!r)
        {
            YAZ_PQF_Parser pp = yaz_pqf_create();
            *rpnquery = yaz_pqf_parse(pp, o, rpn_buf);
            if (!*rpnquery)
            {
                size_t off;
                const char *pqf_msg;
                int code = yaz_pqf_error(pp, &pqf_msg, &off);
                yaz_log(YLOG_WARN, "PQF Parser Error %s (code %d)",
                        pqf_msg, code);
                r = -1;
            }
            yaz_pqf_destroy(pp);
        }
        else
            r = cql_transform_error(m_transform, &addinfo);
    }
    cql_parser_destroy(cp);
    *addinfop = addinfo ? odr_strdup(o, addinfo) : 0;
    return r;
}
int Yaz_cql2rpn::rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o,
                                   char **addinfop)
{
    const char *addinfo = 0;
    if (!m_transform)
        return -3;
    int r = cql_transform_rpn2cql_wrbuf(m_transform, cql, q);
    if (r)
        cql_transform_error(m_transform, &addinfo);
    *addinfop = addinfo ? odr_strdup(o, addinfo) : 0;
    return r;
}
