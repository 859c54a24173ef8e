// Environment of the proxy: Z39.50 and HTTP clients and servers.
#ifndef ENV_HPP
#define ENV_HPP
#include "sim.hpp"
#include "core.hpp"
#include "scen.hpp"
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <yaz/oid_db.h>
#include <yaz/diagbib1.h>
#include <yaz/wrbuf.h>
#include <yaz/pquery.h>
#include <yaz/querytowrbuf.h>
#include <yaz/copy_types.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>

namespace sim {
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// decoded message with its memory
struct Msg {
    ODR odr;
    Z_GDU *gdu;
    std::string raw;
    Msg();
    ~Msg();
    bool decode(const std::string &bytes);
    Z_APDU *apdu() { return gdu && gdu->which == Z_GDU_Z3950 ? gdu->u.z3950 : 0; }
    Z_HTTP_Response *hres()
    { return gdu && gdu->which == Z_GDU_HTTP_Response ? gdu->u.HTTP_Response : 0; }
    Z_HTTP_Request *hreq()
    { return gdu && gdu->which == Z_GDU_HTTP_Request ? gdu->u.HTTP_Request : 0; }
};
typedef std::shared_ptr<Msg> MsgP;
struct Odr {      // encoder
    ODR o;
    Odr() : o(odr_createmem(ODR_ENCODE)) {}
    ~Odr() { odr_destroy(o); }
    operator ODR() { return o; }
    std::string encode(Z_APDU *a);
    std::string encode_gdu(Z_GDU *g);
};
enum RK { RK_MSG = 1, RK_EOF = 0, RK_TIMEOUT = -1, RK_RESET = -2, RK_JUNK = -3 };
struct Stream {
    SockP s;
    std::string buf;
    // one complete message
    RK read(MsgP &m, i64 deadline);
    bool write(const std::string &d, i64 deadline = -1) { return env_write(s, d, deadline); }
};
struct Resp {
    RK kind = RK_TIMEOUT;
    MsgP m;
    int which = -1;               // Z_APDU_*
    std::string refid;
    bool has_refid = false;
    bool ok() const { return kind == RK_MSG; }
    bool closed() const { return kind == RK_EOF || kind == RK_RESET; }
    // search / present
    long long hits = -1;
    bool success = false;
    int present_status = -1;
    int returned = -1, next = -1;
    std::string asi;
    std::vector<std::string> recs;    // record text; "diag:<code>:<addinfo>"
    std::vector<std::string> rec_db, rec_syntax;
    int diag = 0;                     // non-surrogate diagnostic
    std::string addinfo;
    int ndiag = 0;
    bool has_records = false;
    // init
    bool init_ok = false;
    std::string opts;                 // names of options
    // close
    int close_reason = -1;
    std::string close_msg;
    // scan
    int scan_status = -1, scan_pos = -1;
    std::vector<std::pair<std::string, long long>> terms;
    // sort
    int sort_status = -1;
    // http
    int http_code = 0;
    std::string body;
    std::map<std::string, std::string> headers; // lower-cased names
    std::string show() const;
};
void parse_resp(Resp &r);

extern int PROXY_PORT;
struct SearchOpt {
    std::string set = "default";
    std::vector<std::string> dbs = { "Default" };
    int small = 0, large = 1, medium = 0;
    std::string syntax;               // "usmarc", "xml", "sutrs"
    std::string esn, med_esn;         // med_esn: as esn when empty, "-" none
    bool replace = true;
    bool other_null_query = false;
    std::string asi;                  // additional search info; comes back from ZServer
};
struct ZClient {
    unsigned actor;
    std::string ip;
    Stream st;
    bool open = false;
    i64 timeout = 600 * SEC;
    ZClient(unsigned a, const std::string &ip_) : actor(a), ip(ip_) {}
    bool connect(int port = 0);
    void close();
    void reset();
    bool send_raw(const std::string &d);
    Resp recv();
    Resp call(const std::string &d);
    static std::string b_init(const std::string &refid, const std::string &user = "",
                       const std::string &pass = "", bool named = true,
                       int version = 3, const std::string &vhost = "");
    static std::string b_search(const std::string &refid, const std::string &pqf,
                         const SearchOpt &o = SearchOpt());
    static std::string b_present(const std::string &refid, const std::string &set,
                          long long start, long long n,
                          const std::string &syntax = "xml",
                          const std::string &esn = "");
    static std::string b_scan(const std::string &refid, const std::string &db,
                       const std::string &term, int n, int pos, bool has_pos = true,
                       int step = -1);
    static std::string b_sort(const std::string &refid, const std::string &in,
                              const std::string &out, const std::string &crit);
    static std::string b_delete(const std::string &refid, const std::string &set);
    static std::string b_close(const std::string &refid);
    static std::string b_es(const std::string &refid);
};
// --------------------------------------------------------------- backends
struct ZServer;
struct BConn;
struct BReq {                      // one request seen by a backend
    int conn;                      // connection id (net level)
    i64 t;
    int which;
    std::string term, query, set, refid, user, pass, syntax, esn, vhost, asi;
    std::vector<std::string> dbs;
    long long start = 0, num = 0;
};
enum BAct { B_OK = 0, B_DELAY, B_CLOSE, B_RESET, B_PARTIAL, B_SILENT, B_DIAG,
            B_WRONG_APDU, B_GARBAGE, B_FEWER, B_MORE, B_NORECS, B_CLOSE_APDU,
            B_SURR, B_BADREF, B_EXTRA, B_NRET_LIE, B_NULLPTR, B_NEGHITS, B_ODDENC,
            B_MULTI, B_FAILQUIET, B_MULTI0, B_ACTN };
struct BConn {
    ZServer *srv;
    Stream st;
    int id;                        // connection id
    unsigned actor;
    bool inited = false;
    std::string user, pass, vhost;
    struct Set { std::string term, query; long long hits; std::vector<std::string> dbs;
                 std::string sortkey; };
    std::map<std::string, Set> sets;
    int outstanding = 0;
    int nreq = 0;
    bool open = true;
    i64 opened = 0, closed_at = 0, last_used = 0;
};
typedef std::shared_ptr<BConn> BConnP;
struct ZServer {
    std::string host;
    int port;
    bool named = true;
    bool init_fail = false;
    bool one_at_a_time = false;    // a second request before the reply is wrong
    i64 delay_max = 0;
    // decides what happens to a request; default B_OK
    std::function<BAct(BConn &, BReq &)> policy;
    std::function<long long(const BReq &)> hits_fn;
    std::function<std::string(const BReq &, const BConn::Set &, long long)> rec_fn;
    // may replace a record
    std::function<void(ODR, Z_NamePlusRecord **, const BConn::Set &, long long)> npr_fn;
    std::function<void(BConn &, BReq &)> on_req;
    std::function<void(BConn &)> on_close;
    std::vector<BConnP> conns;     // all ever accepted
    std::vector<BReq> log;
    SockP listener;
    unsigned actor_base;
    bool conn_live(const BConn &c) const;  // and not closed by the proxy either
    int max_recs_per_present = 1000000;
    std::vector<std::string> scan_terms;
    ZServer(const std::string &h, int p, unsigned abase)
        : host(h), port(p), actor_base(abase) {}
    void start();
    void stop();                   // close listener
    void drop_all();               // reset every open connection
    int open_conns() const;
    void serve(BConnP c);
    std::string record(const BReq &r, const BConn::Set &s, long long pos);
};
// occurrences a target reports for a scan term
long long scan_count(const std::string &host, const std::string &term);
long long term_hits(const std::string &term);
std::string rec_text(const std::string &host, const std::string &db,
                     const std::string &term, long long pos,
                     const std::string &esn, const std::string &syntax);
// first term of a query
std::string query_term(Z_Query *q, std::string *full);

// ------------------------------------------------------------------- HTTP
struct HClient {
    unsigned actor;
    std::string ip;
    Stream st;
    bool open = false;
    i64 timeout = 600 * SEC;
    HClient(unsigned a, const std::string &ip_) : actor(a), ip(ip_) {}
    bool connect(int port = 0);
    void close();
    Resp recv();
    Resp call(const std::string &d) { st.write(d, now() + timeout); return recv(); }
    static std::string b_get(const std::string &path, bool keep = true,
                             const std::string &hdr = "", const std::string &ver = "1.1");
    static std::string b_post(const std::string &path, const std::string &body,
                              bool keep = true, const std::string &hdr = "");
};
struct HServer {
    std::string host;
    int port;
    unsigned actor_base;
    SockP listener;
    struct Reply { int code = 200; std::string body, hdr; BAct act = B_OK; i64 delay = 0; bool close = false;
                   std::string raw; };   // raw: the whole message
    std::function<Reply(Z_HTTP_Request *, int conn)> handler;
    int nconn = 0, nopen = 0, nreq = 0;
    HServer(const std::string &h, int p, unsigned a) : host(h), port(p), actor_base(a) {}
    void start();
    void stop();
};
// ------------------------------------------------------------------ proxy
void start_proxy(const std::string &config_xml);
void wait_listen(int port);
void thread_faults();
int proxy_tid();
std::string mp_config(const std::string &routes_and_filters);
std::string frontend(int port, const std::string &extra = "", int threads = 0,
                     const std::string &port_attrs = "");
// helper: number of ops etc.
struct Clients {
    std::vector<int> tids;
    void go(unsigned actor, const char *name, std::function<void()> fn)
    { tids.push_back(spawn(name, fn, actor)); }
    void wait() { for (int t : tids) join(t); }
};
}
#endif
