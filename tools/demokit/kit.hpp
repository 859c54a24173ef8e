// Small pieces to drive metaproxy's filters from a demonstration.
#ifndef KIT_HPP
#define KIT_HPP
#include "config.hpp"
#include <metaproxy/filter.hpp>
#include <metaproxy/package.hpp>
#include <metaproxy/util.hpp>
#include "router_flexml.hpp"
#include "factory_static.hpp"
#include "factory_filter.hpp"
#include <yaz/zgdu.h>
#include <yaz/pquery.h>
#include <yaz/otherinfo.h>
#include <yaz/oid_db.h>
#include <yaz/comstack.h>
#include <yaz/tcpip.h>
#include <yaz/diagbib1.h>
#include <libxml/parser.h>
#include <boost/thread.hpp>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <thread>
#include <mutex>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
namespace mp = metaproxy_1;
typedef std::string S;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); \
    fflush(stdout); _exit(1); } } while (0)
// ---------------------------------------------------------------- requests
static void setref(ODR o, Z_ReferenceId **r, const S &s) {
    if (s.empty()) return;
    *r = (Z_ReferenceId *) odr_malloc(o, sizeof(**r));
    (*r)->buf = (char *) odr_strdup(o, s.c_str());
    (*r)->len = s.size();
}
static Z_APDU *mk_init(ODR o, const S &vhost = "", const S &user = "", const S &pass = "",
                       bool named = true, const S &ref = "") {
    Z_APDU *a = zget_APDU(o, Z_APDU_initRequest);
    Z_InitRequest *r = a->u.initRequest;
    ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_1);
    ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_2);
    ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_3);
    ODR_MASK_SET(r->options, Z_Options_search);
    ODR_MASK_SET(r->options, Z_Options_present);
    ODR_MASK_SET(r->options, Z_Options_scan);
    if (named) ODR_MASK_SET(r->options, Z_Options_namedResultSets);
    if (!vhost.empty())
        yaz_oi_set_string_oid(&r->otherInfo, o, yaz_oid_userinfo_proxy, 1, vhost.c_str());
    if (!user.empty()) {
        Z_IdAuthentication *au = (Z_IdAuthentication *) odr_malloc(o, sizeof(*au));
        Z_IdPass *ip = (Z_IdPass *) odr_malloc(o, sizeof(*ip));
        au->which = Z_IdAuthentication_idPass;
        au->u.idPass = ip;
        ip->groupId = 0;
        ip->userId = odr_strdup(o, user.c_str());
        ip->password = odr_strdup(o, pass.c_str());
        r->idAuthentication = au;
    }
    setref(o, &r->referenceId, ref);
    return a;
}
static Z_APDU *mk_search(ODR o, const S &set, const S &db, const S &pqf, const S &ref = "") {
    Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest);
    Z_SearchRequest *r = a->u.searchRequest;
    r->resultSetName = odr_strdup(o, set.c_str());
    r->num_databaseNames = 1;
    r->databaseNames = (char **) odr_malloc(o, sizeof(char *));
    r->databaseNames[0] = odr_strdup(o, db.c_str());
    *r->smallSetUpperBound = 0; *r->largeSetLowerBound = 1; *r->mediumSetPresentNumber = 0;
    mp::util::pqf(o, a, pqf);
    setref(o, &r->referenceId, ref);
    return a;
}
static Z_APDU *mk_present(ODR o, const S &set, long start, long num, const S &ref = "",
                          const Odr_oid *syn = yaz_oid_recsyn_xml, const S &esn = "") {
    Z_APDU *a = zget_APDU(o, Z_APDU_presentRequest);
    Z_PresentRequest *r = a->u.presentRequest;
    r->resultSetId = odr_strdup(o, set.c_str());
    *r->resultSetStartPoint = start; *r->numberOfRecordsRequested = num;
    r->preferredRecordSyntax = odr_oiddup(o, syn);
    if (!esn.empty()) {
        Z_RecordComposition *c = (Z_RecordComposition *) odr_malloc(o, sizeof(*c));
        c->which = Z_RecordComp_simple;
        c->u.simple = (Z_ElementSetNames *) odr_malloc(o, sizeof(Z_ElementSetNames));
        c->u.simple->which = Z_ElementSetNames_generic;
        c->u.simple->u.generic = odr_strdup(o, esn.c_str());
        r->recordComposition = c;
    }
    setref(o, &r->referenceId, ref);
    return a;
}
static S refof(Z_APDU *a) {
    Z_ReferenceId **r = mp::util::get_referenceId(a);
    return r && *r ? S((const char *) (*r)->buf, (*r)->len) : S();
}
static S rectext(Z_NamePlusRecord *n) {
    if (n->which != Z_NamePlusRecord_databaseRecord) return "?surrogate";
    Z_External *e = n->u.databaseRecord;
    if (e->which != Z_External_octet) return "?";
    return S((const char *) e->u.octet_aligned->buf, e->u.octet_aligned->len);
}
static std::vector<S> rectexts(Z_Records *r) {
    std::vector<S> v;
    if (r && r->which == Z_Records_DBOSD)
        for (int i = 0; i < r->u.databaseOrSurDiagnostics->num_records; i++)
            v.push_back(rectext(r->u.databaseOrSurDiagnostics->records[i]));
    return v;
}
static int diagof(Z_Records *r) {
    if (r && r->which == Z_Records_NSD) return (int) *r->u.nonSurrogateDiagnostic->condition;
    return 0;
}
static Z_Records *mk_recs(ODR o, const std::vector<S> &v, const S &db) {
    Z_Records *r = (Z_Records *) odr_malloc(o, sizeof(*r));
    r->which = Z_Records_DBOSD;
    Z_NamePlusRecordList *l = (Z_NamePlusRecordList *) odr_malloc(o, sizeof(*l));
    r->u.databaseOrSurDiagnostics = l;
    l->num_records = v.size();
    l->records = (Z_NamePlusRecord **) odr_malloc(o, sizeof(void *) * (v.size() + 1));
    for (size_t i = 0; i < v.size(); i++) {
        Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(o, sizeof(*n));
        n->databaseName = odr_strdup(o, db.c_str());
        n->which = Z_NamePlusRecord_databaseRecord;
        n->u.databaseRecord = z_ext_record_oid(o, yaz_oid_recsyn_xml, v[i].data(), v[i].size());
        l->records[i] = n;
    }
    return r;
}
// ---------------------------------------------------------------- a backend filter
// hits are taken from the term: "h12x" gives 12; record text "<r>db/term/pos</r>"
struct Fake : public mp::filter::Base {
    static std::function<bool(mp::Package &)> hook;     // true: handled
    struct Set { S db, term; long hits; };
    mutable std::mutex m;
    mutable std::map<unsigned long, std::map<S, Set>> ses;
    static S rec(const S &db, const S &term, long pos) {
        return "<r>" + db + "/" + term + "/" + std::to_string(pos) + "</r>";
    }
    static long hits_of(const S &t) {
        for (size_t i = 0; i + 1 < t.size(); i++)
            if (t[i] == 'h' && isdigit(t[i + 1])) return atol(t.c_str() + i + 1);
        return 5;
    }
    void process(mp::Package &p) const override {
        if (hook && hook(p)) return;
        Z_GDU *g = p.request().get();
        if (p.session().is_closed() || !g || g->which != Z_GDU_Z3950) {
            std::lock_guard<std::mutex> l(m);
            ses.erase(p.session().id());
            return;
        }
        mp::odr o;
        Z_APDU *a = g->u.z3950, *b = 0;
        std::lock_guard<std::mutex> l(m);
        if (a->which == Z_APDU_initRequest) {
            b = o.create_initResponse(a, 0, 0);
            Z_InitResponse *r = b->u.initResponse;
            r->protocolVersion = a->u.initRequest->protocolVersion;
            r->options = a->u.initRequest->options;
        } else if (a->which == Z_APDU_searchRequest) {
            Z_SearchRequest *q = a->u.searchRequest;
            S t;
            if (q->query->which == Z_Query_type_1 &&
                q->query->u.type_1->RPNStructure->which == Z_RPNStructure_simple &&
                q->query->u.type_1->RPNStructure->u.simple->which == Z_Operand_APT) {
                Z_Term *x = q->query->u.type_1->RPNStructure->u.simple->
                    u.attributesPlusTerm->term;
                if (x->which == Z_Term_general) t = S((char *) x->u.general->buf, x->u.general->len);
            }
            Set s; s.db = q->databaseNames[0]; s.term = t; s.hits = hits_of(t);
            ses[p.session().id()][q->resultSetName] = s;
            b = o.create_searchResponse(a, 0, 0);
            *b->u.searchResponse->resultCount = s.hits;
        } else if (a->which == Z_APDU_presentRequest) {
            Z_PresentRequest *q = a->u.presentRequest;
            auto &ss = ses[p.session().id()];
            auto it = ss.find(q->resultSetId);
            if (it == ss.end()) b = o.create_presentResponse(a, 30, q->resultSetId);
            else if (*q->resultSetStartPoint < 1 || *q->numberOfRecordsRequested < 0 ||
                     *q->resultSetStartPoint + *q->numberOfRecordsRequested - 1 > it->second.hits)
                b = o.create_presentResponse(a, 13, 0);
            else {
                std::vector<S> v;
                for (long i = 0; i < *q->numberOfRecordsRequested; i++)
                    v.push_back(rec(it->second.db, it->second.term, *q->resultSetStartPoint + i));
                b = o.create_presentResponse(a, 0, 0);
                b->u.presentResponse->records = mk_recs(o, v, it->second.db);
                *b->u.presentResponse->numberOfRecordsReturned = v.size();
                *b->u.presentResponse->nextResultSetPosition = *q->resultSetStartPoint + v.size();
            }
        } else
            b = o.create_close(a, Z_Close_protocolError, "?");
        p.response() = b;
    }
    void configure(const xmlNode *, bool, const char *) override {}
};
std::function<bool(mp::Package &)> Fake::hook;
static mp::filter::Base *mk_fake() { return new Fake; }
// filters is the content of <chain>; the filter type "fake" is the backend
static mp::RouterFleXML *mk_router(const S &filters, const S &more = "") {
    static mp::FactoryStatic factory;
    static bool once = false;
    if (!once) { factory.add_creator("fake", mk_fake); once = true; }
    S x = "<?xml version=\"1.0\"?><metaproxy xmlns=\"http://indexdata.com/metaproxy\" "
        "version=\"1.0\"><start route=\"start\"/><routes><route id=\"start\">" + filters +
        "</route>" + more + "</routes></metaproxy>";
    xmlDoc *d = xmlParseMemory(x.data(), x.size());
    CHECK(d);
    try { return new mp::RouterFleXML(d, factory, false, 0); }
    catch (std::exception &e) { printf("config: %s\n", e.what()); _exit(2); }
}
// a session through the router
struct Ses {
    mp::Router *r; mp::Session s; mp::Origin o; mp::Package *last = 0;
    ODR odr = odr_createmem(ODR_ENCODE);
    explicit Ses(mp::Router *rr) : r(rr) { }
    Z_APDU *go(Z_APDU *a) {         // answer, or 0
        delete last;
        last = new mp::Package(s, o);
        last->request() = a;
        last->router(*r).move();
        s = last->session();
        Z_GDU *g = last->response().get();
        return g && g->which == Z_GDU_Z3950 ? g->u.z3950 : 0;
    }
    bool closed() { return s.is_closed(); }
    void close() {
        mp::Package p(s, o);
        p.session().close();
        p.router(*r).move();
        s = p.session();
    }
};
// ---------------------------------------------------------------- real sockets
struct Cli {                        // Z39.50 client over TCP
    COMSTACK cs = 0; char *buf = 0; int len = 0;
    ODR e = odr_createmem(ODR_ENCODE), d = odr_createmem(ODR_DECODE);
    bool open(int port) {
        void *add;
        cs = cs_create(tcpip_type, 1, PROTO_Z3950);
        S h = "127.0.0.1:" + std::to_string(port);
        add = cs_straddr(cs, h.c_str());
        return add && cs_connect(cs, add) == 0;
    }
    bool put(Z_APDU *a) {
        odr_reset(d);
        if (!z_APDU(e, &a, 0, 0)) return false;
        int n; char *b = odr_getbuf(e, &n, 0);
        int r = cs_put(cs, b, n);
        odr_reset(e);
        return r == 0;
    }
    bool wait(double secs) {
        if (cs_more(cs)) return true;
        struct pollfd p = { cs_fileno(cs), POLLIN, 0 };
        return poll(&p, 1, (int) (secs * 1000)) > 0;
    }
    Z_APDU *get(double secs = 20) { // 0: end or nothing
        if (!wait(secs)) return 0;
        int r = cs_get(cs, &buf, &len);
        if (r <= 0) return 0;
        odr_setbuf(d, buf, r, 0);
        Z_APDU *a = 0;
        return z_APDU(d, &a, 0, 0) ? a : 0;
    }
    Z_APDU *go(Z_APDU *a, double secs = 20) { return put(a) ? get(secs) : 0; }
    void close() { if (cs) cs_close(cs); cs = 0; }
};
static int free_port() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = {}; a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(s, (struct sockaddr *) &a, sizeof a);
    socklen_t l = sizeof a; getsockname(s, (struct sockaddr *) &a, &l);
    ::close(s);
    return ntohs(a.sin_port);
}
// runs a route with a frontend_net in a child process
static pid_t start_proxy(const S &filters, const S &more = "") {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        mp::RouterFleXML *r = mk_router(filters, more);
        r->start();
        mp::Package pk;
        pk.router(*r).move();
        _exit(0);
    }
    return p;
}
static bool wait_port(int port) {
    for (int i = 0; i < 200; i++) {
        Cli c;
        if (c.open(port)) { c.close(); return true; }
        usleep(50000);
    }
    return false;
}
#endif
