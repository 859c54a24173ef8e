// C23: filters that treat each request by itself; their log.
#include "zm.hpp"
#include <algorithm>
#include <sstream>
using namespace sim;

namespace {
struct Exp { std::vector<std::string> req, res; int n = 0; bool odd = false; };
struct Form { std::string q, seen; int diag = 0; std::string addinfo; };   // seen "": not compared
}
static bool rt, sd, qr, cs, logs, same_file, apdu, oneline, usr, ses, iopt, dates;
static int cql;                                   // 0 none, 1 CQL to RPN, 2 RPN to CQL
static std::map<std::string, Exp> logA;           // by client address
static std::map<std::string, std::vector<std::string>> seen;     // term -> queries at the target
static unsigned nrt;

static unsigned hash32(const std::string &s)
{
    unsigned h = 2166136261u;
    for (unsigned char c : s)
        h = (h ^ c) * 16777619u;
    return h ^ (h >> 13);
}
// the unique part of whatever the query became
static std::string core(const std::string &t)
{
    size_t p = 0;
    for (; (p = t.find('h', p)) != std::string::npos; p++)
        if (isdigit((unsigned char) t[p + 1]))
            break;
    if (p == std::string::npos)
        return "";
    size_t e = p;
    while (e < t.size() && (isalnum((unsigned char) t[e]) || t[e] == '_'))
        e++;
    return t.substr(p, e - p);
}
// 0 plain, 1 diagnostic, 2 not XML, 3 makes the stylesheet stop, 4 SUTRS
static unsigned rkind(const std::string &term, long long pos)
{
    unsigned h = hash32(strf("%s.%lld", term.c_str(), pos)) % 11;
    return h > 4 ? 0 : h;
}
static std::string raw(const std::string &term, long long pos, const std::string &es)
{
    return rkind(term, pos) == 2 ? strf("<r %s %lld %s", term.c_str(), pos, es.c_str()) :
        strf("<r q=\"%s\" n=\"%lld\" e=\"%s\"%s/>", term.c_str(), pos, es.c_str(),
             rkind(term, pos) == 3 ? " stop=\"1\"" : "");
}
static std::string sdiag(const std::string &d)
{
    return sd ? " ERROR 14: System error in presenting records -- " + d + "\n" : "diag:14:" + d;
}
static std::string want(const std::string &term, long long pos, const std::string &sy, const std::string &es)
{
    unsigned k = rkind(term, pos);
    if (k == 1)
        return sdiag(strf("surr %s %lld", term.c_str(), pos));
    if (!rt || (sy == "xml" && (es == "F" || es == "")))
        return raw(term, pos, es);
    if (k == 4)
        return sdiag("unsupported record type for record_conv");
    if (k == 2 && es != "P")
        return sdiag("?xmlParse");
    if (es == "P")
        return raw(term, pos, "F");
    if (k == 3)
        return sdiag("?xslt");
    if (es == "x")
        return strf("<x q=\"%s\" n=\"%lld\" e=\"F\"/>", term.c_str(), pos);
    return strf("<y q=\"%s\" n=\"%lld\" e=\"F\"/>", term.c_str(), pos);
}
static std::string squeeze(std::string g)
{
    while (g.size() && (g.back() == '\n' || g.back() == 0))
        g.pop_back();
    size_t p = g.find("?>");
    if (p != std::string::npos && g.compare(0, 5, "<?xml") == 0)
    {
        g.erase(0, p + 2);
        while (g.size() && g[0] == '\n')
            g.erase(0, 1);
    }
    return g;
}
static bool same_rec(const std::string &w, const std::string &g)
{
    size_t p = w.find('?');
    std::string a = squeeze(w), b = squeeze(g);
    if (p == std::string::npos)
        return a == b;
    // our own words for an error of libxml2 or libxslt
    if (b.compare(0, p, w, 0, p))
        return false;
    bool parse = b.find("xmlParseMemory") != std::string::npos,
        xslt = b.find("xsltApply") != std::string::npos;
    return a.find("?xmlParse") != std::string::npos ? parse && !xslt : !parse;
}
static const char *XS =
    "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\">"
    "<xsl:output method=\"xml\" omit-xml-declaration=\"yes\"/>"
    "<xsl:template match=\"/%s\">%s<%s q=\"{@q}\" n=\"{@n}\" e=\"{@e}\"/></xsl:template></xsl:stylesheet>";
static const char *XQ =
    "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\">"
    "<xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy>"
    "</xsl:template>"
    "<xsl:template match=\"attr[@type='1' and @value='4']\"><attr type=\"1\" value=\"1016\"/></xsl:template>"
    "<xsl:template match=\"attr[@value='99']\"><attr type=\"1\" value=\"1003\"/><attr type=\"2\" value=\"3\"/>"
    "</xsl:template>"
    "<xsl:template match=\"apt[attr/@value='77']\"><bogus/></xsl:template>"
    "</xsl:stylesheet>";
static const char *PQF =
    "set = info:srw/cql-context-set/1/cql-v1.1\n"
    "set.cql = info:srw/cql-context-set/1/cql-v1.1\n"
    "set.dc = info:srw/cql-context-set/1/dc-v1.1\n"
    "index.cql.serverChoice = 1=1010\n"
    "index.dc.title = 1=4\n"
    "index.dc.creator = 1=1003\n"
    "relation.eq = 2=3\n"
    "relation.scr = 2=3\n"
    "position.* = 3=3\n"
    "structure.* = 4=1\n";

static std::string query_of(const std::string &bytes)
{
    Msg m;
    m.decode(bytes);
    std::string f;
    query_term(m.apdu()->u.searchRequest->query, &f);
    return f;
}
static std::string repl(std::string s, const std::string &a, const std::string &b)
{
    for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size())
        s.replace(p, a.size(), b);
    return s;
}
static std::string with_cql(const std::string &bytes, const std::string &query)
{
    Msg m;
    m.decode(bytes);
    Odr o;
    Z_APDU *a = m.apdu();
    Z_Query *q = a->u.searchRequest->query;
    q->which = Z_Query_type_104;
    Z_External *e = (Z_External *) odr_malloc(o, sizeof(*e));
    memset(e, 0, sizeof(*e));
    e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql);
    e->which = Z_External_CQL;
    e->u.cql = odr_strdup(o, query.c_str());
    q->u.type_104 = e;
    return o.encode(a);
}
static std::string syn_name(const std::string &s)
{
    return s == "xml" ? "XML" : s == "usmarc" ? "USmarc" : s == "sutrs" ? "SUTRS" : "-";
}
namespace {
struct CClient : MClient {
    bool up = false;
    int k = 0;
    std::map<std::string, std::pair<std::string, long long>> mine;     // set -> term, hits
    explicit CClient(unsigned a) : MClient(a) {}
    void expect(const std::string &req, const std::string &res)
    {
        Exp &e = logA[ip];
        e.req.push_back("Z3950 " + req);
        e.res.push_back("Z3950 " + res);
        e.n++;
    }
    void start()
    {
        close();
        must_connect();
        Resp r;
        std::string u = strf("u%u", actor);
        go(b_init(ref(), u, "p", true), Z_APDU_initResponse, r);
        if (!r.init_ok)
            violation("init-rejected", "%s: %s", who().c_str(), r.show().c_str());
        Z_InitRequest *q = 0;
        Msg m;
        m.decode(b_init("x", u, "p", true));
        q = m.apdu()->u.initRequest;
        Z_InitResponse *p = r.m->apdu()->u.initResponse;
        expect(strf("initRequest %s - %s %s %s", u.c_str(), q->implementationId, q->implementationName,
                    q->implementationVersion),
               strf("initResponse OK %s %s %s", p->implementationId ? p->implementationId : "-",
                    p->implementationName ? p->implementationName : "-",
                    p->implementationVersion ? p->implementationVersion : "-"));
        mine.clear();
        up = true;
    }
    static std::string res_text(const Resp &r, const char *name)
    {
        bool s = r.which == Z_APDU_searchResponse;
        std::string t = strf("%s %s", name, s ? r.success ? "OK" : "Failure" :
                             r.present_status == 0 ? "OK" : r.present_status == 5 ? "Failure" : "?");
        if (r.ndiag)
            return t + strf(" DIAG %d \"%s\"", r.diag, r.addinfo.c_str());
        return t + (s ? strf(" %lld 1+%d %d", r.hits, r.returned, r.next) :
                    strf(" %d %d", r.returned, r.next));
    }
    void recs(const Resp &r, const std::string &term, long long st, long long n, const std::string &sy,
              const std::string &es)
    {
        if (r.ndiag || (long long) r.recs.size() != n || (n && r.returned != n))
            violation("record-count", "%s: want %lld of %s: %s", who().c_str(), n, term.c_str(), r.show().c_str());
        for (long long i = 0; i < n; i++)
        {
            std::string w = want(term, st + i, sy, es);
            if (!same_rec(w, r.recs[i]))
                violation("wrong-record", "%s: position %lld of %s as %s %s: want %s got %s", who().c_str(), st + i,
                          term.c_str(), sy.c_str(), es.c_str(), w.c_str(), r.recs[i].c_str());
        }
    }
    // what becomes of one of our queries
    std::string make(const std::string &set, const std::string &term, const SearchOpt &so0, Form &f,
                     std::string &logq)
    {
        SearchOpt so = so0;
        so.set = set;
        unsigned z = draw_a(ST_OP, actor, 8);
        bool c = cql == 1 && draw_a(ST_OP, actor, 3);
        if (c)
        {
            static const char *p[] = { "%s", "dc.title=%s", "%s and dc.creator=zz", "dc.title=%s or dc.title=b",
                "(%s", "foo.bar=%s", "%s and (", "dc.title=\"%s\"" };
            static const char *s[] = { "@attr 2=3 @attr 4=1 @attr 3=3 @attr 1=1010 %s", "@attr 2=3 @attr 4=1 @attr 3=3 @attr 1=4 %s",
                "@and @attr 2=3 @attr 4=1 @attr 3=3 @attr 1=1010 %s @attr 2=3 @attr 4=1 @attr 3=3 @attr 1=1003 zz",
                "@or @attr 2=3 @attr 4=1 @attr 3=3 @attr 1=4 %s @attr 2=3 @attr 4=1 @attr 3=3 @attr 1=4 b", "", "", "",
                "@attr 2=3 @attr 4=1 @attr 3=3 @attr 1=4 %s" };
            f.q = repl(p[z], "%s", term);
            f.seen = repl(s[z], "%s", term);
            if (f.seen.empty())
                f.diag = -1;
            else
                f.seen = query_of(b_search("x", f.seen, so));
            std::string b = with_cql(b_search(ref(), "x", so), f.q);
            logq = query_of(b);
            if (qr && !f.diag)
                f.seen = repl(f.seen, "@attr 1=4 ", "@attr 1=1016 ");
            return b;
        }
        static const char *p[] = { "%s", "@attr 1=4 %s", "@and %s @attr 1=4 zz", "@attr 1=99 %s",
            "@and %s \xc3\xa6\xc3\xb8", "@and %s \xe6\xbc\xa2", "@attr 1=77 %s", "@or @attr 1=4 %s @attr 1=4 \xc3\xa5" };
        f.q = repl(p[z], "%s", term);
        std::string b = b_search(ref(), f.q, so);
        logq = f.seen = query_of(b);
        if (cql == 2)
        {
            static const char *s[] = { "%s", "dc.title=%s", "%s and dc.title=zz", "", "%s and \xc3\xa6\xc3\xb8",
                "%s and \xe6\xbc\xa2", "", "dc.title=%s or dc.title=\xc3\xa5" };
            f.seen = repl(s[z], "%s", term);
            if (f.seen.empty())
                f.diag = -1;
            else
                f.seen = "CQL " + f.seen;
            return b;
        }
        if (qr)
        {
            if (z == 6)
                f.diag = -1;
            f.seen = repl(f.seen, "@attr 1=4 ", "@attr 1=1016 ");
            f.seen = repl(f.seen, "@attr 1=99 ", "@attr 1=1003 @attr 2=3 ");
        }
        if (cs)
        {
            if (z == 5)
                f.diag = 108;
            f.seen = repl(f.seen, "\xc3\xa6\xc3\xb8", "\xe6\xf8");
            f.seen = repl(f.seen, "\xc3\xa5", "\xe5");
        }
        return b;
    }
    void sent(const std::string &term, const Form &f)
    {
        auto &v = seen[term];
        if (f.diag)
        {
            if (v.size())
                violation("forwarded", "%s: %s reached the target as %s", who().c_str(), f.q.c_str(), v[0].c_str());
            return;
        }
        if (v.size() != 1)
            violation("not-forwarded", "%s: %s: %zu times", who().c_str(), f.q.c_str(), v.size());
        if (squeeze_q(v[0]) != squeeze_q(f.seen))
            violation("wrong-query", "%s: %s: want %s got %s", who().c_str(), f.q.c_str(), f.seen.c_str(),
                      v[0].c_str());
    }
    static std::string squeeze_q(std::string s)
    {
        s = repl(s, "@attrset Bib-1 ", "");
        s = repl(s, "RPN ", "");
        s = repl(s, " = ", "=");
        return s;
    }
    SearchOpt opts(std::string &sy, std::string &es)
    {
        SearchOpt so;
        unsigned z = draw_a(ST_OP, actor, 4);
        if (z >= 2)
        {
            static const char *e[] = { "F", "x", "y", "P" };
            sy = "xml";
            es = e[draw_a(ST_OP, actor, 4)];
            if (es == "P")
                sy = "usmarc";
            so.small = 5;
            so.large = 20;
            so.medium = 3;
            so.syntax = sy;
            so.esn = es;
        }
        if (draw_a(ST_OP, actor, 4) == 3)
            so.asi = "ai" + std::to_string(actor);
        return so;
    }
    void after_search(const Resp &r, const std::string &set, const std::string &term, const SearchOpt &so,
                      const Form &f, const std::string &logq)
    {
        expect(strf("searchRequest Default %s %s %s", set.c_str(), syn_name(so.syntax).c_str(), logq.c_str()),
               res_text(r, "searchResponse"));
        if (f.diag)
        {
            if (!r.ndiag || (f.diag > 0 && r.diag != f.diag))
                violation("wrong-diag", "%s: %s: %s", who().c_str(), f.q.c_str(), r.show().c_str());
            count("probe.refused");
        }
        else
        {
            if (r.ndiag)
                violation("unexpected-diag", "%s: %s: %s", who().c_str(), f.q.c_str(), r.show().c_str());
            long long hits = term_hits(term), n = 0;
            if (r.hits != hits)
                violation("wrong-hits", "%s: %s: %s", who().c_str(), f.q.c_str(), r.show().c_str());
            if (hits <= so.small)
                n = hits;
            else if (hits < so.large)
                n = std::min((long long) so.medium, hits);
            recs(r, term, 1, n, so.syntax, so.esn);
            check_asi(r, so.asi, term);
            mine[set] = { term, hits };
            count("probe.search_ok");
        }
        sent(term, f);
    }
    void csearch()
    {
        static const long long hh[] = { 3, 0, 1, 17, 120 };
        std::string term = uterm(actor, k++, hh[draw_a(ST_OP, actor, 5)]), set = strf("s%u.%d", actor, k), sy, es, lq;
        SearchOpt so = opts(sy, es);
        Form f;
        Resp r;
        go(make(set, term, so, f, lq), Z_APDU_searchResponse, r);
        after_search(r, set, term, so, f, lq);
    }
    void cpresent()
    {
        if (mine.empty())
            return;
        auto it = mine.begin();
        std::advance(it, draw_a(ST_OP, actor, (unsigned) mine.size()));
        long long hits = it->second.second;
        static const char *e[] = { "F", "x", "y", "P", "nope", "", "x" };
        std::string es = e[draw_a(ST_OP, actor, 7)], sy = es == "P" ? "usmarc" : "xml";
        if (es == "x" && draw_a(ST_OP, actor, 6) == 5)
            sy = "sutrs";
        if (!hits)
            return;
        long long st = 1 + draw_a(ST_OP, actor, (unsigned) hits),
            n = 1 + draw_a(ST_OP, actor, (unsigned) std::min(10LL, hits - st + 1));
        Resp r;
        go(b_present(ref(), it->first, st, n, sy, es), Z_APDU_presentResponse, r);
        after_present(r, it->first, it->second.first, st, n, sy, es);
    }
    void after_present(const Resp &r, const std::string &set, const std::string &term, long long st, long long n,
                       const std::string &sy, const std::string &es)
    {
        expect(strf("presentRequest %s %lld+%lld %s %s", set.c_str(), st, n, syn_name(sy).c_str(),
                    es.empty() ? "-" : es.c_str()),
               res_text(r, "presentResponse"));
        int d = rt && sy == "sutrs" ? 239 : rt && es == "nope" ? 24 : 0;
        if (d)
        {
            if (r.diag != d)
                violation("wrong-diag", "%s: %s %s: %s", who().c_str(), sy.c_str(), es.c_str(), r.show().c_str());
            return;
        }
        recs(r, term, st, n, sy, es);
        count("probe.present_ok");
    }
    void cother()
    {
        Resp r;
        unsigned z = draw_a(ST_OP, actor, 4);
        sim::log("client %u other %u", actor, z);
        switch (z)
        {
        case 0:
            go(b_scan(ref(), "Default", "m2", 3, 2), Z_APDU_scanResponse, r);
            expect("scanRequest Default 3 2 - RPN m2 ",
                   strf("scanResponse OK %zu %d -", r.terms.size(), r.scan_pos));
            break;
        case 1:
            if (mine.empty())
                return;
            go(b_sort(ref(), mine.begin()->first, mine.begin()->first, "1=4 ia"), Z_APDU_sortResponse, r);
            expect("sortRequest ", "sortResponse ");
            break;
        case 2:
            go(b_es(ref()), Z_APDU_extendedServicesResponse, r);
            expect("", "");
            break;
        default:
            if (mine.empty())
                return;
            go(b_delete(ref(), mine.begin()->first), Z_APDU_deleteResultSetResponse, r);
            mine.erase(mine.begin());
            expect("deleteResultSetRequest", "deleteResultSetResponse");
        }
        count("probe.other_ok");
    }
    // odd answers of the target, odd requests: something comes back or the
    // connection ends; the log stays readable
    void codd()
    {
        logA[ip].odd = true;
        Resp r;
        if (draw_a(ST_OP, actor, 3) == 0)
        {
            static const int w[] = { Z_APDU_triggerResourceControlRequest, Z_APDU_resourceReportRequest,
                Z_APDU_accessControlRequest, Z_APDU_segmentRequest, Z_APDU_initResponse, Z_APDU_searchResponse,
                Z_APDU_presentResponse, Z_APDU_duplicateDetectionRequest, Z_APDU_resourceControlRequest,
                Z_APDU_deleteResultSetResponse, Z_APDU_sortResponse, Z_APDU_scanResponse };
            Odr o;
            Z_APDU *a = zget_APDU(o, w[draw_a(ST_OP, actor, 12)]);
            std::string b = a ? o.encode(a) : "";
            if (b.empty())
                return;
            send_raw(b);
            i64 t = timeout;
            timeout = 20 * SEC;
            r = recv();
            timeout = t;
            close();
            up = false;
            count("probe.odd_request");
            return;
        }
        std::string term = uterm(actor, k++, 17), set = strf("ws%u.%d", actor, k);
        SearchOpt so;
        so.set = set;
        unsigned z = draw_a(ST_OP, actor, 3);
        if (z)
        {
            so.syntax = "xml";
            so.esn = z == 1 ? "F" : "x";
            so.small = 5;
            so.large = 20;
            so.medium = 3;
        }
        call(b_search(ref(), term, so), r);
        for (int i = 0; up && i < 2; i++)
            call(b_present(ref(), set, 1 + draw_a(ST_OP, actor, 5), 1 + draw_a(ST_OP, actor, 4), "xml",
                           draw_a(ST_OP, actor, 2) ? "F" : "x"), r);
        count("probe.odd_answer");
    }
    void call(const std::string &b, Resp &r)
    {
        send_raw(b);
        r = recv();
        if (r.kind == RK_TIMEOUT)
            violation("no-response", "%s", who().c_str());
        if (!r.ok() || r.which == Z_APDU_close)
        {
            close();
            up = false;
        }
    }
    void cpipe()
    {
        struct P { std::string set, term, sy, es, lq, bytes; SearchOpt so; Form f; long long st = 0, n = 0; };
        std::map<std::string, P> ps;
        std::string all;
        int m = 2 + draw_a(ST_OP, actor, 4);
        for (int i = 0; i < m; i++)
        {
            P p;
            if (mine.size() && draw_a(ST_OP, actor, 2))
            {
                auto it = mine.begin();
                std::advance(it, draw_a(ST_OP, actor, (unsigned) mine.size()));
                long long hits = it->second.second;
                if (!hits)
                    continue;
                static const char *e[] = { "F", "x", "y", "P" };
                p.es = e[draw_a(ST_OP, actor, 4)];
                p.sy = p.es == "P" ? "usmarc" : "xml";
                p.set = it->first;
                p.term = it->second.first;
                p.st = 1 + draw_a(ST_OP, actor, (unsigned) hits);
                p.n = 1 + draw_a(ST_OP, actor, (unsigned) std::min(10LL, hits - p.st + 1));
                p.bytes = b_present(ref(), p.set, p.st, p.n, p.sy, p.es);
            }
            else
            {
                static const long long hh[] = { 3, 0, 1, 17, 120 };
                p.term = uterm(actor, k++, hh[draw_a(ST_OP, actor, 5)]);
                p.set = strf("s%u.%d", actor, k);
                p.so = opts(p.sy, p.es);
                p.bytes = make(p.set, p.term, p.so, p.f, p.lq);
            }
            all += p.bytes;
            ps[last_ref] = p;
        }
        m = (int) ps.size();
        send_raw(all);
        for (int i = 0; i < m; i++)
        {
            Resp r = recv();
            if (!r.ok() || !ps.count(r.refid))
                violation("pipeline", "client %u: %d of %d answered: %s", actor, i, m, r.show().c_str());
            P p = ps[last_ref = r.refid];
            ps.erase(r.refid);
            if (r.which != (p.st ? Z_APDU_presentResponse : Z_APDU_searchResponse))
                violation("wrong-type", "%s: %s", who().c_str(), r.show().c_str());
            if (p.st)
                after_present(r, p.set, p.term, p.st, p.n, p.sy, p.es);
            else
                after_search(r, p.set, p.term, p.so, p.f, p.lq);
        }
        count("probe.pipelined_batch");
    }
};
}
// a block of the log that was written by one request
static void check_log(const std::string &file, const std::string &text)
{
    if (text.size() && text.back() != '\n')
        violation("torn-log", "%s ends in the middle of a line: ...%s", file.c_str(),
                  text.substr(text.size() > 60 ? text.size() - 60 : 0).c_str());
    std::map<std::string, std::vector<std::string>> req, res;
    std::map<std::string, int> lines;
    std::vector<int> idq, idr;
    size_t p = 0;
    int depth = 0;
    unsigned nl = 0;
    bool any_odd = false;
    for (auto &x : logA)
        any_odd = any_odd || x.second.odd;
    while (p < text.size())
    {
        size_t e = text.find('\n', p);
        std::string l = text.substr(p, e - p), whole = l;
        p = e + 1;
        nl++;
        bool line = false;
        if (dates)
        {
            int a, b, c, n = 0;
            if (sscanf(l.c_str(), "%2d:%2d:%2d %n", &a, &b, &c, &n) == 3 && n == 9)
            {
                line = true;
                l.erase(0, 9);
            }
        }
        else
            line = true;
        bool A = l.compare(0, 3, "LA ") == 0, B = l.compare(0, 3, "LB ") == 0;
        line = line && (A || B);
        if (!line)
        {
            if (!apdu)
                violation("torn-log", "%s: line %u: %s", file.c_str(), nl, whole.c_str());
            bool q = false;
            for (char ch : whole)
                if (ch == '"' || ch == '\'')
                    q = !q;
                else if (!q && ch == '{')
                    depth++;
                else if (!q && ch == '}')
                    depth--;
            size_t z = whole.find("referenceId");
            if (z != std::string::npos)
                count("probe.log_apdu");
            continue;
        }
        if (depth)
            violation("mixed-log", "%s: line %u within a dump: %s", file.c_str(), nl, whole.c_str());
        l.erase(0, 3);
        int id, n = 0;
        char yn[8];
        double d;
        if (sscanf(l.c_str(), "request id=%d close=%3s%n", &id, yn, &n) == 2 && n == (int) l.size())
        {
            idq.push_back(A ? id : -id);
            continue;
        }
        n = 0;
        if (sscanf(l.c_str(), "response id=%d close=%3s duration=%lf%n", &id, yn, &d, &n) == 3 && n == (int) l.size())
        {
            idr.push_back(A ? id : -id);
            continue;
        }
        if (l.compare(0, 13, "init options:") == 0)
        {
            if ((!any_odd && l.find("search") == std::string::npos) || l.find(':', 13) != std::string::npos)
                violation("torn-log", "%s: line %u: %s", file.c_str(), nl, whole.c_str());
            continue;
        }
        char user[20] = "";
        int i1, i2, i3, i4, oid, sid;
        n = 0;
        bool u = false;
        if (sscanf(l.c_str(), "%d.%d.%d.%d:%d %d %lf %n", &i1, &i2, &i3, &i4, &oid, &sid, &d, &n) < 7 || !n)
        {
            u = true;
            n = 0;
            if (sscanf(l.c_str(), "%19s %d.%d.%d.%d:%d %d %lf %n", user, &i1, &i2, &i3, &i4, &oid, &sid, &d, &n) < 8 ||
                !n)
                violation("torn-log", "%s: line %u: %s", file.c_str(), nl, whole.c_str());
        }
        std::string ip = strf("%d.%d.%d.%d", i1, i2, i3, i4), t = l.substr(n);
        if (!logA.count(ip))
            violation("torn-log", "%s: line %u: nobody is %s: %s", file.c_str(), nl, ip.c_str(), whole.c_str());
        if (d < 0 || d > 3600)
            violation("wrong-duration", "%s: line %u: %s", file.c_str(), nl, whole.c_str());
        std::string cl = strf("u%d", 99 + i4);
        if (u && t.compare(0, 5, "Z3950") == 0 && cl != user)
            violation("wrong-user", "%s: line %u: %s is %s: %s", file.c_str(), nl, ip.c_str(), cl.c_str(), whole.c_str());
        // names in it are this client's own
        for (size_t z = 0; (z = t.find("_c1", z)) != std::string::npos; z++)
            if (t.compare(z + 2, 3, cl.substr(1)))
                violation("mixed-log", "%s: line %u: %s", file.c_str(), nl, whole.c_str());
        if (!A || u)
            continue;
        lines[ip]++;
        if (t.compare(0, 6, "Z3950 ") == 0 || t.compare(0, 5, "HTTP_") == 0)
            (t.find("Request") != std::string::npos && t.find("Response") == std::string::npos ? req : res)[ip].push_back(t);
        else if (oneline)
        {
            long long hits;
            char nm[64];
            if (sscanf(t.c_str(), "Search Default OK %lld %63s", &hits, nm) == 2)
            {
                size_t z = t.find("h" + std::to_string(hits) + "_c" + cl.substr(1));
                if ((z == std::string::npos && nm[0] != 'w') || strncmp(nm + (nm[0] == 'w'), ("s" + cl.substr(1) + ".").c_str(), 5))
                    violation("mixed-log", "%s: line %u: %s", file.c_str(), nl, whole.c_str());
                count("probe.log_search");
            }
        }
        else
            violation("torn-log", "%s: line %u: %s", file.c_str(), nl, whole.c_str());
    }
    std::sort(idq.begin(), idq.end());
    std::sort(idr.begin(), idr.end());
    if (ses && idq != idr)
        violation("log-missing", "%s: %zu request and %zu response lines", file.c_str(), idq.size(), idr.size());
    for (auto &x : logA)
    {
        if (x.second.odd)
            continue;
        auto cmp = [&](std::vector<std::string> w, std::vector<std::string> g, const char *what) {
            std::sort(w.begin(), w.end());
            std::sort(g.begin(), g.end());
            for (size_t i = 0; i < std::max(w.size(), g.size()); i++)
            {
                std::string a = i < w.size() ? w[i] : "(none)", b = i < g.size() ? g[i] : "(none)";
                if (a == "Z3950 " || a != b)
                {
                    // extended services: only that there is a line
                    if (a == "Z3950 ")
                        continue;
                    violation("log-missing", "%s: %s, %s: want %s got %s", file.c_str(), x.first.c_str(), what,
                              a.c_str(), b.c_str());
                }
            }
        };
        auto strip = [](std::vector<std::string> v) {
            v.erase(std::remove_if(v.begin(), v.end(), [](const std::string &s) {
                return s.find("extendedServices") != std::string::npos || s == "Z3950 "; }), v.end());
            return v;
        };
        cmp(strip(x.second.req), strip(req[x.first]), "requests");
        cmp(strip(x.second.res), strip(res[x.first]), "responses");
        count("probe.log_checked");
    }
}
SCENARIO(chain)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    rt = draw(ST_KNOB, 3);
    sd = draw(ST_KNOB, 2);
    qr = draw(ST_KNOB, 2);
    cs = draw(ST_KNOB, 2);
    cql = draw(ST_KNOB, 3);
    if (cql == 2)
        qr = cs = false;
    logs = draw(ST_KNOB, 3);
    same_file = draw(ST_KNOB, 2);
    apdu = chance(ST_KNOB, 1, 4);
    oneline = draw(ST_KNOB, 2);
    usr = draw(ST_KNOB, 2);
    ses = draw(ST_KNOB, 2);
    iopt = draw(ST_KNOB, 2);
    dates = apdu || draw(ST_KNOB, 4);
    bool full = logs && chance(ST_KNOB, 1, 6);
    fs_write_den = full ? 4 : 0;
    static const int mp[] = { 1000000, 4, 1000000 };
    (void) mp;
    srv.hits_fn = [](const BReq &r) { return term_hits(core(r.term)); };
    srv.rec_fn = [](const BReq &r, const BConn::Set &s, long long pos) { return raw(core(s.term), pos, r.esn); };
    srv.npr_fn = [](ODR o, Z_NamePlusRecord **n, const BConn::Set &s, long long pos) {
        std::string t = core(s.term);
        unsigned k = rkind(t, pos);
        if (k == 1)
            *n = zget_surrogateDiagRec(o, "Default", 14, strf("surr %s %lld", t.c_str(), pos).c_str());
        if (k == 4 && (*n)->u.databaseRecord->which == Z_External_octet)
        {
            std::string x((char *) (*n)->u.databaseRecord->u.octet_aligned->buf,
                          (*n)->u.databaseRecord->u.octet_aligned->len);
            (*n)->u.databaseRecord = z_ext_record_sutrs(o, x.data(), (int) x.size());
        }
    };
    srv.on_req = [](BConn &, BReq &r) {
        if (r.which == Z_APDU_searchRequest)
            seen[core(r.term)].push_back(r.query);
    };
    std_backend(srv);
    srv.policy = [](BConn &, BReq &r) {
        if (r.set[0] != 'w')
            return B_OK;
        static const BAct a[] = { B_MULTI, B_MULTI0, B_DIAG, B_NORECS, B_NULLPTR, B_WRONG_APDU, B_CLOSE_APDU, B_FAILQUIET,
            B_ODDENC, B_MORE, B_FEWER, B_CLOSE, B_SURR, B_NRET_LIE, B_NEGHITS };
        return a[draw(ST_FAULT, 15)];
    };
    auto log = [&](const char *name, const char *file) {
        std::string s = strf("<filter type=\"log\"><message>%s</message><filename>%s</filename>", name, file);
        s += dates ? "<time-format>%H:%M:%S</time-format>" : "<time-format></time-format>";
        s += strf("<category access=\"true\" line=\"%s\" user-access=\"%s\" session=\"%s\" init-options=\"%s\" "
                  "apdu=\"%s\"/></filter>", oneline ? "true" : "false", usr ? "true" : "false", ses ? "true" : "false",
                  iopt ? "true" : "false", apdu ? "true" : "false");
        return s;
    };
    std::string route;
    if (logs)
        route += log("LA", "/simfs/log/a");
    if (sd)
        route += "<filter type=\"sd_remove\"/>";
    if (rt)
    {
        std::string s1 = memfile(strf(XS, "r", "<xsl:if test=\"@stop\"><xsl:message terminate=\"yes\">no</xsl:message>"
                                      "</xsl:if>", "x")),
            s2 = memfile(strf(XS, "x", "", "y"));
        route += "<filter type=\"record_transform\"><retrievalinfo><retrieval syntax=\"xml\" name=\"F\"/>"
            "<retrieval syntax=\"xml\" name=\"x\"><backend syntax=\"xml\" name=\"F\"><xslt stylesheet=\"" + s1 +
            "\"/></backend></retrieval><retrieval syntax=\"xml\" name=\"y\"><backend syntax=\"xml\" name=\"F\">"
            "<xslt stylesheet=\"" + s1 + "\"/><xslt stylesheet=\"" + s2 + "\"/></backend></retrieval>"
            "<retrieval syntax=\"usmarc\" name=\"P\"><backend syntax=\"xml\" name=\"F\"/></retrieval>"
            "</retrievalinfo></filter>";
    }
    if (cql)
        route += "<filter type=\"cql_rpn\"><conversion file=\"" + memfile(PQF) + "\"" +
            (cql == 2 ? " reverse=\"true\"" : "") + "/></filter>";
    if (qr || cs)
        route += "<filter type=\"query_rewrite\">" +
            (qr ? "<xslt stylesheet=\"" + memfile(XQ) + "\"/>" : std::string()) +
            (cs ? "<charset from=\"UTF-8\" to=\"ISO-8859-1\"/>" : "") + "</filter>";
    if (logs)
        route += log("LB", same_file ? "/simfs/log/a" : "/simfs/log/b");
    int nex = 3;
    std::string ze = "<filter type=\"zeerex_explain\">";
    for (int i = 0; i < nex; i++)
        ze += strf("<database name=\"db%d\"><explain xmlns=\"http://explain.z3950.org/dtd/2.0/\"><serverInfo><host>h</host>"
                   "<database>edb%d</database></serverInfo></explain></database>", i, i);
    ze += "</filter>";
    int nc = 1 + draw(ST_KNOB, 5);
    for (int i = 0; i < nc; i++)
        logA[strf("10.1.0.%d", i + 1)];
    start_proxy(mp_config("<routes><route id=\"start\">" +
        frontend(9000, rand_threads() + "<port route=\"b\">@:9001</port>") + route + ze + zclient() +
        "</route><route id=\"b\"><filter type=\"bounce\"><echo>true</echo></filter></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    sim::log("rt %d sd %d qr %d cs %d cql %d logs %d same %d apdu %d line %d user %d ses %d io %d dates %d full %d",
             rt, sd, qr, cs, cql, logs, same_file, apdu, oneline, usr, ses, iopt, dates, full);
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            CClient c(a);
            int nops = 2 + draw_a(ST_OP, a, 12);
            for (int z = 0; z < nops; z++)
            {
                unsigned op = draw_a(ST_OP, a, 14);
                if (op_skipped(a, std::min(z, 11)))
                    continue;
                c.pfx = strf("c%u.%d", a, z);
                sim::log("client %u op %u", a, op);
                if (op >= 11)
                {
                    HClient h(a, c.ip);
                    bool b = op == 13;
                    if (!h.connect(b ? 9001 : 0))
                        violation("refused", "client %u cannot connect", a);
                    int d = draw_a(ST_OP, a, nex + 1);
                    static const char *qs[] = { "?version=1.1&operation=explain", "", "?operation=explain",
                        "?version=1.2&operation=explain&recordPacking=string" };
                    std::string path = strf("/db%d%s", d, qs[draw_a(ST_OP, a, 4)]);
                    std::string bytes = b && draw_a(ST_OP, a, 2) ? HClient::b_post(path, strf("body %u %d", a, z)) :
                        HClient::b_get(path, true, strf("X-Id: %u.%d\r\n", a, z));
                    Resp r = h.call(bytes);
                    if (!r.ok())
                        violation("no-response", "client %u: %s: %s", a, path.c_str(), r.show().c_str());
                    if (!b)
                    {
                        Exp &e = logA[c.ip];
                        e.req.push_back("HTTP_Request GET " + path);
                        e.res.push_back(strf("HTTP_Response %d %zu", r.http_code, r.body.size()));
                    }
                    if (b)
                    {
                        if (r.http_code != 400 || squeeze(r.body) != squeeze(bytes))
                            violation("wrong-echo", "client %u: sent %s got %s", a, bytes.c_str(), r.show().c_str());
                        count("probe.bounced");
                    }
                    else if (d == nex)
                    {
                        if (r.http_code != 400)
                            violation("wrong-explain", "client %u: %s: %s", a, path.c_str(), r.show().c_str());
                    }
                    else
                    {
                        std::string w = strf("edb%d<", d), w2 = strf("edb%d&lt;", d);
                        if (r.http_code != 200 || (r.body.find(w) == std::string::npos &&
                                                   r.body.find(w2) == std::string::npos))
                            violation("wrong-explain", "client %u: %s: %s", a, path.c_str(), r.body.c_str());
                        count("probe.explained");
                    }
                    h.close();
                    continue;
                }
                if (op == 10)
                {   // bounced
                    ZClient x(a, c.ip);
                    if (!x.connect(9001))
                        violation("refused", "client %u cannot connect", a);
                    std::string t = uterm(a, 900 + z, 1);
                    Resp r = x.call(ZClient::b_search(t, t));
                    if (!r.ok() || r.which != Z_APDU_close || r.refid != t)
                        violation("not-bounced", "client %u: %s", a, r.show().c_str());
                    if (r.close_msg.find("BOUNCE Z3950 searchRequest Default") != 0 || r.close_msg.find(t) == std::string::npos)
                        violation("wrong-bounce", "client %u: %s: %s", a, t.c_str(), r.close_msg.c_str());
                    x.close();
                    count("probe.bounced");
                    continue;
                }
                if (!c.up)
                    c.start();
                switch (op)
                {
                case 0: case 1: case 2:
                    c.csearch();
                    break;
                case 3: case 4: case 5: case 6:
                    c.cpresent();
                    break;
                case 7: case 8:
                    c.cpipe();
                    break;
                case 9:
                    if (draw_a(ST_OP, a, 6) == 5)
                    {
                        c.codd();
                        break;
                    }
                default:
                    if (draw_a(ST_OP, a, 4))
                        c.cother();
                    else
                        c.start();
                }
            }
            c.close();
        });
    cl.wait();
    if (!wait_fds(fds0, 120 * SEC))
        violation("leak", "descriptors are still open");
    sleep_us(60 * SEC);          // the log lines of the closing sessions
    if (verbose())
        for (auto &f : fs_written)
        {
            std::istringstream is(f.second);
            std::string l;
            while (std::getline(is, l))
                sim::log("%s| %s", f.first.c_str(), l.c_str());
        }
    if (logs && !full)
        for (auto &f : fs_written)
        {
            if (f.first == "/simfs/log/a")
                check_log(f.first, f.second);
            else
            {
                auto save = logA;
                for (auto &x : logA)
                    x.second = Exp(), x.second.odd = save[x.first].odd;
                check_log(f.first, f.second);
                logA = save;
            }
        }
}
