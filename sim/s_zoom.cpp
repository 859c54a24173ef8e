// C18: targets reached through ZOOM.
#include "zm.hpp"
#include "sru.hpp"
#include <algorithm>
using namespace sim;

namespace {
struct Seen { std::string host, db, user, pass, query, syntax, esn; bool present; };
struct ZSet { std::string host, db, term; long long hits = -1; bool sru = false, xform = false; std::string spec;
              bool odd = false; };
}
static std::map<std::string, int> faulted;               // term or user -> times
static std::map<std::string, unsigned> kinds;            // term -> bits of what happened
static std::map<std::string, std::vector<Seen>> seen;    // term -> requests
static std::map<int, std::string> owner;                 // backend connection -> client
static const int NZ = 2;
static ZServer *Z[NZ];
static unsigned fden;
static unsigned anon_faults, torus_faults;
static int Z_torus;

static std::string client_of(const std::string &term)
{
    size_t p = term.find("_c");
    return p == std::string::npos ? "" : term.substr(p + 2, 3);
}
static std::string dec(const std::string &s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size())
        {
            o += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16);
            i += 2;
        }
        else
            o += s[i] == '+' ? ' ' : s[i];
    return o;
}
static std::map<std::string, std::string> args(const std::string &path)
{
    std::map<std::string, std::string> m;
    size_t p = path.find('?');
    while (p != std::string::npos)
    {
        size_t e = path.find('&', ++p), q = path.find('=', p);
        std::string end = path.substr(0, e);
        if (q != std::string::npos && q < end.size())
            m[end.substr(p, q - p)] = dec(end.substr(q + 1));
        p = e;
    }
    return m;
}
static std::string xmlesc(const std::string &s)
{
    std::string o;
    for (char c : s)
        o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
    return o;
}
static BAct zpolicy(int i, BConn &c, BReq &r)
{
    std::string term = r.term;
    if (r.which == Z_APDU_presentRequest)
        term = c.sets.count(r.set) ? c.sets[r.set].term : "";
    if (r.which != Z_APDU_initRequest)
    {
        Seen s = { Z[i]->host, r.dbs.empty() ? "" : r.dbs[0], c.user, c.pass, r.query,
                   r.syntax, r.esn, r.which == Z_APDU_presentRequest };
        seen[term].push_back(s);
        std::string cl = client_of(term), &o = owner[c.id];
        if (!cl.empty() && !o.empty() && o != cl)
            violation("shared-connection", "connection %d to %s carries requests of clients %s and %s",
                      c.id, Z[i]->host.c_str(), o.c_str(), cl.c_str());
        if (!cl.empty())
            o = cl;
    }
    if (!fden || !chance_a(ST_FAULT, c.actor, 1, fden))
        return B_OK;
    BAct a;
    if (r.which == Z_APDU_initRequest)
    {
        // not B_WRONG_APDU: libyaz has assertions about the order of responses
        static const BAct v[] = { B_DIAG, B_CLOSE, B_RESET, B_SILENT,
            B_PARTIAL, B_GARBAGE, B_CLOSE_APDU, B_NULLPTR };
        a = v[draw_a(ST_FAULT, c.actor, 8)];
        if (r.user.empty() || r.user == "ua" || r.user == "ug@gg" || r.user == "cfu/cfp")
            anon_faults++;
        faulted[r.user.substr(0, r.user.find('/'))]++;
    }
    else
    {
        static const BAct v[] = { B_DIAG, B_CLOSE, B_RESET, B_SILENT, B_PARTIAL,
            B_GARBAGE, B_CLOSE_APDU, B_FEWER, B_NORECS, B_SURR, B_NULLPTR, B_NEGHITS, B_ODDENC,
            B_MULTI, B_FAILQUIET, B_NRET_LIE };
        a = v[draw_a(ST_FAULT, c.actor, 16)];
        faulted[term]++;
        kinds[term] |= 1u << a;
    }
    return a;
}
static HServer::Reply sru_origin(Z_HTTP_Request *h, int conn)
{
    HServer::Reply rp;
    rp.hdr = "Content-Type: text/xml\r\n";
    auto a = args(h->path);
    std::string q = a["query"], schema = a["recordSchema"];
    q.erase(std::remove(q.begin(), q.end(), '"'), q.end());
    size_t qs = q.find("h", 0);
    while (qs != std::string::npos && q.find("_c", qs) != q.find('_', qs))
        qs = q.find("h", qs + 1);
    if (qs != std::string::npos && q.find("_c", qs) != std::string::npos)
        q = q.substr(qs, q.find(' ', qs) - qs);
    std::string path = std::string(h->path).substr(0, std::string(h->path).find('?'));
    long long hits = term_hits(q), start = atoll(a["startRecord"].c_str()),
        max = a.count("maximumRecords") ? atoll(a["maximumRecords"].c_str()) : 0;
    seen[q].push_back({ "s1", path.substr(1), "", "", q, "", schema, start > 1 });
    std::string x = "<zs:searchRetrieveResponse xmlns:zs=\"http://www.loc.gov/zing/srw/\">"
        "<zs:version>1.1</zs:version>";
    if (q.compare(0, 3, "err") == 0)
        x += strf("<zs:diagnostics><diagnostic xmlns=\"http://www.loc.gov/zing/srw/diagnostic/\">"
            "<uri>info:srw/diagnostic/1/%d</uri><details>x</details></diagnostic></zs:diagnostics>", 27);
    else
    {
        x += strf("<zs:numberOfRecords>%lld</zs:numberOfRecords>", hits);
        if (start < 1)
            start = 1;
        std::string recs;
        for (long long i = start; i < start + max && i <= hits; i++)
            recs += "<zs:record><zs:recordSchema>" + schema + "</zs:recordSchema><zs:recordPacking>xml"
                "</zs:recordPacking><zs:recordData>" + rec_text("s1", path.substr(1), q, i, schema, "") +
                "</zs:recordData>" + strf("<zs:recordPosition>%lld</zs:recordPosition></zs:record>", i);
        if (!recs.empty())
            x += "<zs:records>" + recs + "</zs:records>";
    }
    rp.body = x + "</zs:searchRetrieveResponse>";
    if (fden && chance(ST_FAULT, 1, fden))
    {
        faulted[q]++;
        static const char *nm[] = { "http_close", "http_reset", "http_partial", "http_silent", "http_garbage",
            "http_500", "http_notxml" };
        unsigned k = draw(ST_FAULT, 7);
        count(strf("fault.%s", nm[k]).c_str());
        if (k == 5)
            rp.code = 500;
        else if (k == 6)
            rp.body = "<nothing";
        else
        {
            static const BAct v[] = { B_CLOSE, B_RESET, B_PARTIAL, B_SILENT, B_GARBAGE };
            rp.act = v[k];
        }
    }
    if (verbose())
        sim::log("sru origin: %s -> %s", h->path, rp.body.c_str());
    return rp;
}
// what a database name stands for: 0 does not work, 1 Z39.50, 2 SRU
static std::string torus_rec(const std::string &db, const std::string &realm)
{
    std::string u = "<udb>" + db + "</udb>",
        z = "<zurl>z1:210/TD" + db.substr(1) + realm + "</zurl><cclmap_ti>u=4</cclmap_ti>";
    if (db == "T1")
        return "<record><layer name=\"final\">" + u + z + "</layer></record>";
    if (db == "T2")
        return "<records>\n <record>\n  <layer name=\"f\">\n   " + u + "\n   " + z +
            "\n  </layer>\n </record>\n</records>\n";
    if (db == "T3")
        return "<?xml version=\"1.0\"?><record>" + z + u + "</record>";
    if (db == "T5" )
        return "<records><record><layer>" + z + u + "</layer></record></records>";
    if (db == "T6")
        return "this is not XML";
    if (db == "T7")
        return "<wrong>" + u + "</wrong>";
    if (db == "T8")
        return "<records><record>" + u + z + "</record><record>" + u + z + "</record></records>";
    if (db == "T9")
        return "<record><layer/></record>";
    return "<records></records>";
}
static HServer::Reply torus(Z_HTTP_Request *h, int conn)
{
    HServer::Reply rp;
    rp.hdr = "Content-Type: application/xml\r\n";
    auto a = args(h->path);
    std::string q = a["q"], p = h->path;
    if (p.compare(0, 5, "/auth") == 0)
    {   // userName=="u100" and password=="p"
        bool ok = q.find("userName==\"u") == 0 && q.find("password==\"p\"") != std::string::npos;
        std::string id = ok ? q.substr(11, 4) : "";
        unsigned f = ok ? (unsigned) atoi(id.c_str() + 1) % 2 : 0;
        rp.body = !ok ? "<records/>" : f ? "<records><record><layer><identityId>r" + id +
            "</identityId></layer></record></records>" :
            "<record>\n <layer>\n<x/> <identityId>r" + id + "</identityId>\n</layer></record>";
    }
    else if (p.compare(0, 4, "/exp") == 0 || q.compare(0, 3, "all") == 0)
    {
        rp.body = "<records>";
        for (int i = 1; i <= atoi(q.c_str() + 3); i++)
            rp.body += strf("<record><udb>%s-%d</udb></record>", q.c_str(), i);
        rp.body += "</records>";
    }
    else
    {
        std::string db = q.compare(0, 5, "udb==") == 0 ? q.substr(5) : "";
        rp.body = torus_rec(db, a["r"]);
        if (db == "T4")
            rp.code = 404;
    }
    if (fden && chance(ST_FAULT, 1, fden))
    {
        torus_faults++;
        unsigned k = draw(ST_FAULT, 5);
        static const char *nm[] = { "torus_close", "torus_reset", "torus_500", "torus_silent", "torus_notxml" };
        count(strf("fault.%s", nm[k]).c_str());
        if (k == 2)
            rp.code = 500;
        else if (k == 4)
            rp.body.resize(rp.body.size() / 2);
        else
            rp.act = k == 0 ? B_CLOSE : k == 1 ? B_RESET : B_SILENT;
    }
    if (verbose())
        sim::log("torus: %s -> %d %s", h->path, rp.code, rp.body.c_str());
    return rp;
}
static std::string build_query(const std::string &ref, const std::string &db, int type,
                               const std::string &query, const SearchOpt &so)
{
    SearchOpt s = so;
    s.dbs = { db };
    std::string b = ZClient::b_search(ref, type == 0 ? query : "x", s);
    if (type == 0)
        return b;
    Msg m;
    m.decode(b);
    Odr o;
    Z_APDU *a = m.apdu();
    Z_Query *q = a->u.searchRequest->query;
    if (type == 1)
    {
        q->which = Z_Query_type_2;
        q->u.type_2 = odr_create_Odr_oct(o, query.data(), (int) query.size());
    }
    else
    {
        q->which = Z_Query_type_104;
        Z_External *e = (Z_External *) odr_malloc(o, sizeof(*e));
        memset(e, 0, sizeof(*e));
        e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql);
        e->which = Z_External_CQL;
        e->u.cql = odr_strdup(o, query.c_str());
        q->u.type_104 = e;
    }
    return o.encode(a);
}
static std::string query_of(const std::string &bytes)
{
    Msg m;
    m.decode(bytes);
    std::string f;
    query_term(m.apdu()->u.searchRequest->query, &f);
    return f;
}
static std::string trim(std::string s)
{
    while (!s.empty() && isspace((unsigned char) s.back()))
        s.pop_back();
    return s;
}
namespace {
struct ZmClient : MClient {
    ZSet cur;
    bool have = false, maybe = false;    // maybe: the last search failed
    int k = 0;
    std::string realm;
    int ncf = 0;
    explicit ZmClient(unsigned a) : MClient(a) {}
    struct Target { int kind = 1; std::string host, db, user, pass; bool xform = false, torus = false; };
    Target target(const std::string &db)
    {
        Target t;
        if (db == "A")
            t = { 1, "z1", "DA", "", "" };
        else if (db == "B")
            t = { 1, "z2", "DB", "ua", "pa" };
        else if (db == "G")
            t = { 1, "z2", "DG", "ug@gg", "pg" };
        else if (db == "C")
            t = { 1, "z1", "DC", "", "" };
        else if (db == "X")
            t = { 1, "z2", "DX", "", "", true };
        else if (db == "L")
            t = { 1, "z1", "DL", "", "" };
        else if (db == "M")
            t = { 1, "z1", "DM,user=mu&password=mp", "cfu/cfp", "" };
        else if (db == "S")
            t = { 2, "s1", "sdb", "", "" };
        else if (db == "P")
            t = { 2, "s1", "pdb", "", "" };
        else if (Z_torus && (db == "T1" || db == "T2" || db == "T3" || db == "T5"))
            t = { 1, "z1", "TD" + db.substr(1) + realm, "", "", false, true };
        else
        {
            t.kind = 0;
            t.torus = db[0] == 'T';
        }
        if (db == "M")
            for (int i = 10; i < 10 + ncf; i++)
                t.db += strf("&a%d=v%d", i, i);
        return t;
    }
    // text of one record as this client should see it
    std::string want(const ZSet &s, long long pos, const std::string &sy, const std::string &es)
    {
        std::string e = es;
        bool pz = sy == "xml" && (es == "pz2" || es == "raw" || es == "marcxml");
        if (pz)
            e = s.xform ? "fix" : "";
        if (s.xform && sy == "xml" && es == "pz2")
            return strf("<x n=\"%lld\" q=\"%s\" e=\"%s\" t=\"%s\" d=\"%s\"/>", pos, s.term.c_str(),
                        e.c_str(), s.host.c_str(), s.db.c_str());
        return rec_text(s.host, s.db, s.term, pos, e, sy);
    }
    bool records(const Resp &r, const ZSet &s, long long st, long long n, const std::string &sy,
                 const std::string &es, bool f)
    {
        unsigned kk = kinds.count(s.term) ? kinds[s.term] : 0;
        // libyaz keeps what it got, so an odd answer shows up again later
        if (kk & (1u << B_NULLPTR | 1u << B_SURR | 1u << B_ODDENC | 1u << B_NORECS | 1u << B_FEWER |
                  1u << B_NRET_LIE | 1u << B_FAILQUIET | 1u << B_MULTI))
            f = true;
        if (r.ndiag && f)
            return false;
        if (!f && (r.ndiag || (long long) r.recs.size() != n || (n && r.returned != n)))
            violation("record-count", "%s: want %lld of %s: %s", who().c_str(), n, s.term.c_str(),
                      r.show().c_str());
        if ((long long) r.recs.size() > n)
            violation("record-count", "%s: want %lld of %s: %s", who().c_str(), n, s.term.c_str(),
                      r.show().c_str());
        for (size_t i = 0; i < r.recs.size(); i++)
        {
            std::string w = want(s, st + i, sy, es), g = trim(r.recs[i]);
            if (g != w && !(f && (g.compare(0, 5, "diag:") == 0 || kk & 1u << B_ODDENC ||
                                 (kk & 1u << B_NULLPTR && g.compare(0, 4, "ext:") == 0))))
                violation("wrong-record", "%s: position %lld in %s: want %s got %s", who().c_str(),
                          st + (long long) i, s.spec.c_str(), w.c_str(), g.c_str());
        }
        return true;
    }
    void zsearch(bool odd)
    {
        unsigned a = actor;
        static const char *dbs[] = { "A", "B", "C", "S", "X", "T1", "T2", "P", "T3", "D", "N", "T5",
            "T4", "T6", "T7", "T8", "T9", "Q", "K", "L", "M", "M", "G" };
        std::string db = dbs[draw_a(ST_OP, a, 23)];
        static const long long hh[] = { 3, 0, 1, 17, 120 };
        std::string term = uterm(a, k++, hh[draw_a(ST_OP, a, 5)]);
        unsigned qtype = draw_a(ST_OP, a, 5), av = draw_a(ST_OP, a, 10), sm = draw_a(ST_OP, a, 4),
            oq = draw_a(ST_OP, a, 16);
        SearchOpt so;
        if (sm == 1)
        {
            so.small = 5;
            so.large = 20;
            so.medium = 2;
            so.syntax = "xml";
            so.esn = "B";
        }
        else if (sm == 2)
        {
            so.small = 5;
            so.large = 20;
            so.medium = 3;
            so.syntax = "xml";
            so.esn = "pz2";
        }
        Target t = target(db);
        std::string spec = db;
        bool badarg = false;
        if (t.kind && (fden || av >= 5))
        {
            if (av == 9)
            {
                spec += ",bogus=1";
                badarg = true;
            }
            else if (db == "M" && av >= 7)
            {
                spec += strf(",user=u%u&password=p%u", a, av % 2);
                size_t p = t.db.find("user=mu&password=mp");
                t.db.replace(p, 19, strf("user=u%u&password=p%u", a, av % 2));
            }
            else if (db != "B" && db != "G" && db != "M" && t.kind == 1)
            {
                spec += strf(",user=u%u&password=p%u", a, av % 2);
                t.user = strf("u%u/p%u", a, av % 2);
                t.pass = "";
                if (av == 8)
                    spec += "&nocproxy=1";
                if (av == 7)
                    spec += "&retry=0";
            }
        }
        if (db == "T8" && av > 6)
            spec += ",x-" + std::string(100, 'y') + "=1";
        int type = 0;
        bool maydiag = false, mustdiag = false;
        std::string q = term;
        if (!odd && qtype == 3)
        {
            type = 1;
            q = qtype == 3 && av % 2 ? "ti=" + term : term;
        }
        else if (!odd && qtype == 4)
        {
            type = 2;
            q = av % 2 ? "dc.title=" + term : term;
        }
        if (type)
            maydiag = t.kind == 2 && av % 2;
        else if (!odd && qtype > 0)
        {
            static const char *p[] = { "@and %s \"a \\\"b\\\" \\\\ c\"", "@attr 1=4 %s", "@attr 1=title %s",
                "@and @attr 2=3 %s @or x @not y z", "@or \"%s\" \"@and\"", "@attr 1=1016 @and %s ''",
                "@prox 0 1 0 2 k 2 %s b" };
            unsigned n = oq % 7;
            q = p[n];
            q.replace(q.find("%s"), 2, term);
            maydiag = t.kind == 2;          // may not be expressible
        }
        if (odd)
        {
            static const char *p[] = { "@set foo", "@term numeric 5", "@attr 1=\"\" x", "@attr 1=4 @set 1" };
            if (oq < 3)
            {
                static const char *v[] = { "", "ti=", "((" };
                type = 1;
                q = v[oq];
            }
            else if (oq < 8)
            {
                static const char *v[] = { "", "a and (", "foo=bar", "\"", "a sortby /x" };
                type = 2;
                q = v[oq - 3];
                mustdiag = q == "a and (" || q == "foo=bar";
            }
            else if (oq < 12)
                q = p[oq - 8];
            else if (oq < 14)
            {
                q = strf("err%d", 101 + (int) (oq - 12));
                mustdiag = true;
            }
            else
                q = "\"\\x00\\xff\\n\"";
            maydiag = true;
            term = "";
        }
        std::string bytes = build_query(ref(), spec, type, q, so);
        Resp r;
        unsigned af = anon_faults, tf = torus_faults;
        int f0 = faulted.count(term) ? faulted[term] : 0, g0 = faulted[strf("u%u", a)];
        if (!go(bytes, Z_APDU_searchResponse, r))
            return;
        bool f = (faulted.count(term) ? faulted[term] : 0) != f0 || faulted[strf("u%u", a)] != g0 ||
            ((t.user.empty() || t.user == "ua" || t.user == "ug@gg" || t.user == "cfu/cfp") && t.kind == 1 && anon_faults != af) ||
            (t.torus && torus_faults != tf);
        if (t.kind == 0 || badarg)
        {
            bool unknown = db == "N";
            if (!r.ndiag || r.has_records == false || r.recs.size() || (unknown && r.diag != 235 && !f && torus_faults == tf))
                violation("wrong-diag", "%s: database %s: %s", who().c_str(), spec.c_str(), r.show().c_str());
            count("probe.zoom_refused");
            if (have)
                maybe = true;
            return;
        }
        if (odd)
        {
            have = maybe = false;
            if (mustdiag && !r.ndiag && (!fden || q.compare(0, 3, "err")))
                violation("wrong-diag", "%s: query %s: %s", who().c_str(), q.c_str(), r.show().c_str());
            if (!r.ndiag)
                count("probe.zoom_odd_accepted");
            cur = ZSet();
            cur.odd = true;
            return;
        }
        unsigned kk = kinds.count(term) ? kinds[term] : 0;
        have = false;
        for (auto &s : seen[term])
            if (s.host != t.host || (!s.present && s.db != t.db) ||
                (t.kind == 1 && !s.present && (s.user != t.user || s.pass != t.pass)))
                violation("misrouted", "%s: search %s in %s: seen at %s database %s user '%s' '%s'",
                          who().c_str(), term.c_str(), spec.c_str(), s.host.c_str(), s.db.c_str(),
                          s.user.c_str(), s.pass.c_str());
        if (t.kind == 1 && type == 0)
        {
            std::string w = query_of(bytes);
            for (auto &s : seen[term])
                if (!s.present && s.query != w)
                    violation("wrong-query", "%s: want %s got %s", who().c_str(), w.c_str(), s.query.c_str());
        }
        if (t.kind == 1 && type && av % 2)
            for (auto &s : seen[term])
                if (!s.present && s.query.find("@attr 1=4 ") == std::string::npos)
                    violation("wrong-query", "%s: %s: got %s", who().c_str(), q.c_str(), s.query.c_str());
        if (r.ndiag)
        {
            if (f)
                count("probe.zoom_diag_after_fault");
            else if (!maydiag)
                violation("unexpected-diag", "%s: search %s in %s: %s", who().c_str(), q.c_str(),
                          spec.c_str(), r.show().c_str());
            // an earlier set is kept if the target could not be looked up
            cur.odd = true;
            return;
        }
        long long hits = term_hits(term);
        if ((r.hits != hits || !r.success) && !(f && kk & (1u << B_NEGHITS | 1u << B_FAILQUIET)))
            violation("wrong-hits", "%s: search %s in %s: %s", who().c_str(), q.c_str(), spec.c_str(),
                      r.show().c_str());
        if (!f && seen[term].size() < 1)
            violation("not-forwarded", "%s: %s", who().c_str(), term.c_str());
        ZSet s = { t.host, t.db, term, hits, t.kind == 2, t.xform, spec };
        if (f && kk & (1u << B_NEGHITS | 1u << B_FAILQUIET))
        {
            cur.odd = true;
            return;
        }
        cur = s;
        have = true;
        maybe = false;
        count("probe.zoom_search_ok");
        long long n = 0;
        if (hits <= so.small)
            n = hits;
        else if (hits < so.large)
            n = std::min((long long) so.medium, hits);
        if (!records(r, s, 1, n, so.syntax, so.esn, f))
            have = !(cur.odd = true);
    }
    void zpresent()
    {
        unsigned a = actor;
        static const char *el[] = { "F", "B", "", "pz2", "raw", "marcxml" };
        std::string sy = rand_syntax(a), es = el[draw_a(ST_OP, a, 6)];
        unsigned how = draw_a(ST_OP, a, 10);
        long long hits = have ? cur.hits : 0, st = 1, n = 1;
        Resp r;
        unsigned af = anon_faults;
        int f0 = faulted[cur.term], g0 = faulted[strf("u%u", a)];
        if (!have || hits == 0 || how >= 8)
        {
            static const long long ss[] = { 1, 0, -1, 2, 1000000, 1, 1, 1LL << 40 },
                nn[] = { 1, 1, 3, -1, 2, 0, 1000000000, 1 };
            unsigned z = draw_a(ST_OP, a, 8);
            st = ss[z];
            n = nn[z];
            if (how == 9 && have)
            {
                st = hits + 1;
                n = 1;
            }
            if (!go(b_present(ref(), "default", st, n, sy, es), Z_APDU_presentResponse, r))
                return;
            bool f = faulted[cur.term] != f0 || anon_faults != af || faulted[strf("u%u", a)] != g0;
            if (n != 0 && !have && !maybe && !r.ndiag && !cur.odd)
                violation("wrong-diag", "%s: there is no set: %s", who().c_str(), r.show().c_str());
            if (have && !maybe && !f && r.diag != 13 && n != 0 && (st < 1 || st > hits || st + n - 1 > hits) &&
                r.recs.empty())
                violation("wrong-diag", "%s: %lld+%lld out of range: %s", who().c_str(), st, n, r.show().c_str());
            if (f && r.ndiag)
                have = !(cur.odd = true);
            count("probe.zoom_range");
            return;
        }
        st = 1 + draw_a(ST_OP, a, (unsigned) hits);
        n = 1 + draw_a(ST_OP, a, (unsigned) std::min(10LL, hits - st + 1));
        if (!go(b_present(ref(), "default", st, n, sy, es), Z_APDU_presentResponse, r))
            return;
        bool f = faulted[cur.term] != f0 || faulted[strf("u%u", a)] != g0 || anon_faults != af;
        if (maybe && r.ndiag)
        {
            have = !(cur.odd = true);
            return;
        }
        if (!records(r, cur, st, n, sy, es, f))
            have = !(cur.odd = true);
        else
            count("probe.zoom_present_ok");
        for (auto &s : seen[cur.term])
            if (s.host != cur.host)
                violation("misrouted", "%s: %s also at %s", who().c_str(), cur.term.c_str(), s.host.c_str());
    }
    void zexplain()
    {
        unsigned a = actor;
        int h = draw_a(ST_OP, a, 6);
        SearchOpt so;
        Resp r;
        unsigned tf = torus_faults;
        if (!go(build_query(ref(), "IR-Explain---1", draw_a(ST_OP, a, 6) == 5 ? 0 : 2, strf("all%d", h), so),
                Z_APDU_searchResponse, r))
            return;
        have = maybe = false;
        cur = ZSet();
        if (r.ndiag)
        {
            if (Z_torus == 2 && torus_faults == tf && r.diag != 107)
                violation("unexpected-diag", "%s: explain: %s", who().c_str(), r.show().c_str());
            return;
        }
        cur.odd = true;
        if (r.hits != h)
            violation("wrong-hits", "%s: explain all%d: %s", who().c_str(), h, r.show().c_str());
        static const long long ss[] = { 1, 0, -1, 2, 1000000, 1, 1, 1LL << 40 },
            nn[] = { 1, 1, 3, -1, 2, 0, 1000000000, 1 };
        unsigned z = draw_a(ST_OP, a, 8);
        if (!go(b_present(ref(), "default", ss[z], nn[z], "xml", "F"), Z_APDU_presentResponse, r))
            return;
        if (h && !go(b_present(ref(), "default", 1, h, "xml", "F"), Z_APDU_presentResponse, r))
            return;
        if (!h)
            return;
        if (r.ndiag || (int) r.recs.size() != h)
            violation("record-count", "%s: explain, %d records: %s", who().c_str(), h, r.show().c_str());
        for (int i = 0; i < h; i++)
            if (r.recs[i] != strf("<explain id=\"all%d-%d\"/>", h, i + 1))
                violation("wrong-record", "%s: explain record %d: %s", who().c_str(), i, r.recs[i].c_str());
        count("probe.zoom_explain");
    }
    // several presents at once
    void zpipe()
    {
        if (!have || maybe || cur.hits < 3)
            return;
        unsigned a = actor;
        std::map<std::string, std::pair<long long, long long>> wantm;
        std::string bytes;
        int m = 2 + draw_a(ST_OP, a, 3), f0 = faulted[cur.term], g0 = faulted[strf("u%u", a)];
        unsigned af = anon_faults;
        for (int i = 0; i < m; i++)
        {
            long long st = 1 + draw_a(ST_OP, a, (unsigned) cur.hits),
                n = 1 + draw_a(ST_OP, a, (unsigned) std::min(5LL, cur.hits - st + 1));
            std::string rf = ref();
            wantm[rf] = { st, n };
            bytes += b_present(rf, "default", st, n, "xml", "F");
        }
        send_raw(bytes);
        i64 t0 = now();
        for (int i = 0; i < m; i++)
        {
            Resp r = recv();
            if (!r.ok() || r.which != Z_APDU_presentResponse || !wantm.count(r.refid))
                violation("pipeline", "client %u: %d of %d answered: %s", a, i, m, r.show().c_str());
            last_ref = r.refid;
            bool f = faulted[cur.term] != f0 || faulted[strf("u%u", a)] != g0 || anon_faults != af;
            if (!records(r, cur, wantm[r.refid].first, wantm[r.refid].second, "xml", "F", f))
                have = !(cur.odd = true);
            wantm.erase(r.refid);
        }
        if (now() - t0 > max_call * m)
            violation("late", "client %u: %d presents took %.1f s", a, m, (now() - t0) / 1e6);
        count("probe.pipelined_batch");
    }
};
}
SCENARIO(zoom)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static const unsigned fd[] = { 0, 0, 12, 4 };
    fden = fd[draw(ST_KNOB, 4)];
    for (int i = 0; i < NZ; i++)
    {
        Z[i] = new ZServer(strf("z%d", i + 1), 210, 1000 + 500 * i);
        Z[i]->policy = [i](BConn &c, BReq &r) { return zpolicy(i, c, r); };
        static const int mp[] = { 1000000, 4, 1, 1000000 };
        Z[i]->max_recs_per_present = mp[draw(ST_KNOB, 4)];
        Z[i]->named = chance(ST_KNOB, 1, 2);
        std_backend(*Z[i]);
    }
    static HServer s1("s1", 80, 2000), tor("torus", 80, 3000);
    dns("s1", true);
    s1.handler = sru_origin;
    s1.start();
    Z_torus = draw(ST_KNOB, 3);                    // 1: also for searches, 2: and explain
    bool auth = Z_torus && chance(ST_KNOB, 1, 3);
    dns("torus", true);
    tor.handler = torus;
    tor.start();
    dns("dead", true);
    dns("hole", true);
    net_blackhole("hole", 210, true);
    static const int tmo[] = { 10, 20, 40 };
    int T = tmo[draw(ST_KNOB, 3)];
    int nc = 1 + draw(ST_KNOB, 4);
    std::string fsec, pt, xsl = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\">"
        "<xsl:output omit-xml-declaration=\"yes\"/>";
    if (chance(ST_KNOB, 1, 4))
        pt = passthru(&fsec);
    std::string lit = xsl + "<xsl:template match=\"/r\"><x n=\"{@n}\" q=\"{@q}\" e=\"{@e}\" t=\"{@t}\" d=\"{@d}\"/>"
        "</xsl:template></xsl:stylesheet>";
    std::string ex = xsl + "<xsl:template match=\"/\"><e><xsl:for-each select=\"//record\"><record><recordData>"
        "<explain id=\"{udb}\"/></recordData></record></xsl:for-each></e></xsl:template></xsl:stylesheet>";
    std::string ta;
    if (Z_torus)
        ta += " url=\"http://torus/s?q=%query&amp;r=%realm\"";
    if (Z_torus == 2)
        ta += " explain_xsl=\"" + memfile(ex) + "\"";
    if (auth)
        ta += " auth_url=\"http://torus/auth?q=%query\"";
    int ncf = 10 * draw(ST_KNOB, 4);
    std::string cf;
    for (int i = 10; i < 10 + ncf; i++)
        cf += strf("<cf_a%d>v%d</cf_a%d>", i, i, i);
    std::string deepdir = "/simfs/" + std::string(60 * draw(ST_KNOB, 3), 'd') + "/cf/cproxy.cfg";
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        frontend(9000, rand_threads()) + pt + "<filter type=\"zoom\"><torus" + ta + "><records>"
        "<record><udb>A</udb><cclmap_ti>u=4</cclmap_ti><zurl>z1:210/DA</zurl></record>"
        "<record><layer><udb>B</udb><authentication>ua pa</authentication><cclmap_ti>u=4</cclmap_ti>"
        "<zurl>z2:210/DB</zurl></layer></record>"
        "<record><udb>G</udb><authentication>ug gg pg</authentication><cclmap_ti>u=4</cclmap_ti><zurl>z2:210/DG</zurl></record>"
        "<record>\n<udb>C</udb><piggyback>0</piggyback><cclmap_ti>u=4</cclmap_ti><zurl>z1:210/DC</zurl></record>"
        "<record><udb>X</udb><elementSet>fix</elementSet><requestSyntax>xml</requestSyntax>"
        "<cclmap_ti>u=4</cclmap_ti><literalTransform>" + xmlesc(lit) + "</literalTransform><zurl>z2:210/DX</zurl></record>"
        "<record><udb>L</udb><requestSyntax>nosuchsyntax</requestSyntax><cclmap_ti>u=4</cclmap_ti>"
        "<zurl>z1:210/DL</zurl></record>"
        "<record><udb>S</udb><sru>get</sru><cclmap_ti>u=4</cclmap_ti><zurl>s1:80/sdb</zurl></record>"
        "<record><udb>P</udb><sru>get</sru><piggyback>0</piggyback><sruVersion>1.1</sruVersion>"
        "<cclmap_ti>u=4</cclmap_ti><zurl>http://s1/pdb</zurl></record>"
        "<record><udb>D</udb><zurl>dead:210</zurl></record>"
        "<record><udb>Q</udb><zurl>hole:210</zurl></record>"
        "<record><udb>K</udb><contentConnector>cc</contentConnector><zurl>z1:210/DK</zurl></record>"
        "<record><udb>M</udb><authentication>mu/mp</authentication><cfAuth>cfu/cfp</cfAuth>"
        "<cclmap_ti>u=4</cclmap_ti><zurl>z1:210/DM</zurl><cf_user>zz</cf_user>" + cf + "</record>"
        "</records></torus>"
        "<fieldmap cql=\"cql.serverChoice\"/><fieldmap cql=\"dc.title\" ccl=\"ti\"/>"
        "<contentProxy config_file=\"" + deepdir + "\"/>" +
        strf("<zoom timeout=\"%d\"/>", T) + "</filter><filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 2);
            for (int z = 0; z < rounds; z++)
            {
                ZmClient c(a);
                c.k = 100 * z;
                c.ncf = ncf;
                c.pfx = strf("c%u.%d", a, z);
                c.max_call = (2 * T + 60) * (nc + 1) * SEC + margin();
                int nops = 2 + draw_a(ST_OP, a, 14);
                bool badpw = auth && draw_a(ST_OP, a, 6) == 5;
                if (op_skipped(a, 13))
                    continue;
                c.must_connect();
                unsigned tf = torus_faults;
                Resp r;
                if (!c.go(c.b_init(c.ref(), strf("u%u", a), badpw ? "q" : "p"), Z_APDU_initResponse, r))
                    continue;
                if (auth && (badpw || !r.init_ok))
                {
                    if (r.init_ok || (!badpw && torus_faults == tf))
                        violation("wrong-auth", "%s: %s", c.who().c_str(), r.show().c_str());
                    c.timeout = 5 * SEC + margin();
                    if (!c.recv().closed())
                        violation("left-open", "%s: rejected", c.who().c_str());
                    c.close();
                    continue;
                }
                if (!r.init_ok)
                    violation("init-rejected", "%s: %s", c.who().c_str(), r.show().c_str());
                if (auth)
                    c.realm = strf("ru%u", a);
                for (int j = 0; j < nops && !c.dead; j++)
                {
                    unsigned kind = draw_a(ST_OP, a, 16);
                    if (op_skipped(a, std::min(j, 11)))
                        continue;
                    if (kind < 6)
                        c.zsearch(false);
                    else if (kind < 11)
                        c.zpresent();
                    else if (kind < 13)
                        c.zsearch(true);
                    else if (kind == 13)
                        c.zexplain();
                    else if (kind == 14)
                        c.zpipe();
                    else if (draw_a(ST_OP, a, 3) == 2)
                    {   // not offered
                        if (!c.go(c.b_scan(c.ref(), "A", "m", 3, 1), Z_APDU_close, r))
                            return;
                        c.timeout = 5 * SEC + margin();
                        if (!c.recv().closed())
                            violation("left-open", "%s: after Close", c.who().c_str());
                        c.dead = true;
                        c.close();
                    }
                }
                if (!c.dead)
                    c.bye();
            }
        });
    cl.wait();
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
