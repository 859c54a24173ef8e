// C25: the built-in test target, several sessions at once.
#include "zm.hpp"
#include <algorithm>
using namespace sim;

static const int SIZE = 42;
// Sizes and counts that no client has reason to ask for; sessions that differ
// on named result sets.  Both only in a share of the runs: see known findings.
static bool wild, mixed, fewer, all_named, any_named;

static std::string marc(long long pos)
{
    return strf("test__%09lld_", pos);
}
namespace {
struct TClient : MClient {
    bool named = false, up = false;
    int k = 0;
    explicit TClient(unsigned a) : MClient(a) {}
    void lost(const char *what)
    {
        Resp r = recv();
        if (r.ok())
            violation("not-closed", "%s: after Close (%s): %s", who().c_str(), what, r.show().c_str());
        close();
        up = false;
    }
    void start()
    {
        close();
        must_connect();
        Resp r;
        named = mixed ? draw_a(ST_OP, actor, 2) : all_named;
        any_named |= named;
        go(b_init(ref(), "", "", named, 3), Z_APDU_initResponse, r);
        if (!r.init_ok)
            violation("init-rejected", "%s: %s", who().c_str(), r.show().c_str());
        Z_InitResponse *p = r.m->apdu()->u.initResponse;
        if (!ODR_MASK_GET(p->options, Z_Options_search) || !ODR_MASK_GET(p->options, Z_Options_present) ||
            !!ODR_MASK_GET(p->options, Z_Options_namedResultSets) != named)
            violation("wrong-options", "%s: named %d", who().c_str(), named);
        up = true;
    }
    // diagnostic wanted for records of a syntax and element set, 0 if none
    static int refusal(const std::string &sy, const std::string &es)
    {
        if (sy == "sutrs")
            return 239;
        std::string s = sy.empty() ? "usmarc" : sy, e = es.empty() ? "F" : es;
        if (s == "usmarc")
            return e == "B" || e == "F" ? 0 : 25;
        return e.compare(0, 2, "FF") == 0 ? 0 : 25;
    }
    void recs(const Resp &r, long long st, long long n, const std::string &es)
    {
        if (r.ndiag)
            violation("unexpected-diag", "%s: %lld+%lld: %s", who().c_str(), st, n, r.show().c_str());
        if ((long long) r.recs.size() != n || r.returned != n)
            violation("record-count", "%s: want %lld+%lld: %s", who().c_str(), st, n, r.show().c_str());
        long long next = st + n > SIZE ? 0 : st + n;
        if (n && r.next != next)
            violation("wrong-next", "%s: %lld+%lld: %s", who().c_str(), st, n, r.show().c_str());
        for (long long i = 0; i < n; i++)
        {
            const std::string &g = r.recs[i];
            if (es.compare(0, 2, "FF") == 0)
            {
                size_t z = es.size() > 2 ? atoi(es.c_str() + 2) : 1;
                if (z < 100 && g.size() != (z ? z * 1024 : 10))
                    violation("wrong-size", "%s: %s: %zu bytes", who().c_str(), es.c_str(), g.size());
                if (g.compare(0, 4, "<a>a") || g.compare(g.size() - 5, 5, "a</a>") ||
                    g.find_first_not_of('a', 3) != g.size() - 4)
                    violation("wrong-record", "%s: position %lld: %s", who().c_str(), st + i, g.substr(0, 80).c_str());
            }
            else if (g.size() != 366 || g.compare(186, 16, marc(st + i)))
                violation("wrong-record", "%s: position %lld: %s", who().c_str(), st + i, g.c_str());
        }
    }
    static bool rec_kind_ok(const std::string &g, const std::string &e)
    {
        if (e.compare(0, 2, "FF"))
            return g.compare(0, 3, "<a>");
        return g.size() == (e.size() < 3 ? 1024 : e == "FF0" ? 10 : (size_t) atoi(e.c_str() + 2) * 1024);
    }
    void diag(const Resp &r, int d)
    {
        if (!r.ndiag || r.diag != d || !r.recs.empty())
            violation("wrong-diag", "%s: want %d: %s", who().c_str(), d, r.show().c_str());
        count("probe.refused");
    }
    void pick(std::string &sy, std::string &es)
    {
        static const char *s[] = { "usmarc", "", "xml", "usmarc", "sutrs", "xml" };
        sy = s[draw_a(ST_OP, actor, K.pipe_cap >= 4096 ? 6 : 5)];
        if (K.pipe_cap < 4096 && sy == "xml")       // takes too long
            sy = "usmarc";
        static const char *e[] = { "F", "B", "", "FF2", "FF", "X", "FF0", "FF3" };
        es = sy == "xml" ? e[2 + draw_a(ST_OP, actor, 6)] : e[draw_a(ST_OP, actor, 8)];
    }
    struct Q { std::string bytes, sy, es, set; SearchOpt so; long long st = 0, n = 0; bool search = false; };
    Q mk()
    {
        Q q;
        pick(q.sy, q.es);
        if (draw_a(ST_OP, actor, 2))
        {
            q.search = true;
            q.set = draw_a(ST_OP, actor, 3) ? "default" : strf("s%d", k++ % 4);
            q.so.set = q.set;
            q.so.syntax = q.sy;
            q.so.esn = q.es;
            static const int sm[] = { 0, 41, 42, 43 }, la[] = { 1, 42, 43, 100 }, me[] = { 0, 1, 10, 42 };
            if (draw_a(ST_OP, actor, 3))
            {
                q.so.small = sm[draw_a(ST_OP, actor, 4)];
                q.so.large = la[draw_a(ST_OP, actor, 4)];
                q.so.medium = me[draw_a(ST_OP, actor, 4)];
                if (draw_a(ST_OP, actor, 2))
                {
                    static const char *e[] = { "-", "B", "F", "FF", "X" };
                    q.so.med_esn = e[draw_a(ST_OP, actor, 5)];
                }
                if (!fewer && q.so.medium && q.so.medium <= q.so.small)
                    q.so.medium = q.so.small == 41 ? 42 : 43;
                if (wild && draw_a(ST_OP, actor, 4) == 3)
                    q.so.medium = draw_a(ST_OP, actor, 2) ? -2147483647 : -1;
            }
            q.bytes = b_search(ref(), strf("t%u_%d", actor, k), q.so);
        }
        else
        {
            static const long long ends[] = { 1, 42, 43, 41, 0, -1, 2 };
            q.st = draw_a(ST_OP, actor, 3) ? 1 + draw_a(ST_OP, actor, SIZE) : ends[draw_a(ST_OP, actor, 7)];
            q.n = draw_a(ST_OP, actor, 3) ? 1 + draw_a(ST_OP, actor, 10) :
                (long long[]) { SIZE, 0, SIZE - q.st + 1, SIZE - q.st + 2 }[draw_a(ST_OP, actor, 4)];
            if (q.n < 0)
                q.n = 1;
            if (wild && draw_a(ST_OP, actor, 4) == 3)
            {
                static const long long odd[][2] = { { 1, -1 }, { 5, -4 }, { 2147483647, 2147483647 }, { 4294967297LL, 1 },
                    { 1, 4294967297LL }, { 2147483647, 1 }, { -2147483647, 10 }, { 2, -2147483647 }, { 1, 2147483647 },
                    { 42, -41 } };
                const long long *o = odd[draw_a(ST_OP, actor, 10)];
                q.st = o[0];
                q.n = o[1];
            }
            if (wild && q.sy == "xml" && draw_a(ST_OP, actor, 4) == 3)
            {
                static const char *e[] = { "FF-1", "FF2097152", "FF4194303", "FF99999999999", "FFx", "FF-2097153" };
                q.es = e[draw_a(ST_OP, actor, 6)];
                q.n = 1;
                q.st = 7;
            }
            q.bytes = b_present(ref(), "default", q.st, q.n, q.sy, q.es);
        }
        return q;
    }
    void check(const Q &q, const Resp &r)
    {
        if (q.search)
        {
            if (!named && q.set != "default")
            {
                if (r.diag != 22 && any_named)
                    violation("named-sets-shared", "%s: set %s though not negotiated: %s", who().c_str(),
                              q.set.c_str(), r.show().c_str());
                diag(r, 22);
                return;
            }
            if (r.hits != SIZE)
                violation("wrong-hits", "%s: %s", who().c_str(), r.show().c_str());
            // a set as large as a bound may be counted to either side of it
            std::string mes = q.so.med_esn == "-" ? "" : q.so.med_esn.empty() ? q.es : q.so.med_esn;
            if (SIZE >= q.so.small && SIZE <= q.so.large && q.so.medium > 0 && q.so.medium <= q.so.small && mes != q.es)
            {
                int d = refusal(q.sy, q.es), m = refusal(q.sy, mes);
                if (d ? r.diag == d && !m : !r.ndiag && r.recs.size() && (m || !rec_kind_ok(r.recs[0], mes)))
                    violation("medium-elements-ignored", "%s: small %d medium %d elements %s, medium set %s: %s",
                              who().c_str(), q.so.small, q.so.medium, q.es.c_str(), mes.c_str(), r.show().c_str());
            }
            std::vector<std::pair<long long, std::string>> w;
            if (SIZE <= q.so.small)
                w.push_back({ SIZE, q.es });
            if (SIZE >= q.so.small && SIZE >= q.so.large)
                w.push_back({ 0, "" });
            if (SIZE >= q.so.small && SIZE <= q.so.large)
                w.push_back({ std::min(SIZE, q.so.medium), mes });
            for (size_t i = 0; i < w.size(); i++)
            {
                long long n = w[i].first;
                const std::string &e = w[i].second;
                int d = n < 0 ? 13 : n ? refusal(q.sy, e) : 0;
                bool last = i + 1 == w.size();
                if (n < 0 && !r.ndiag && r.recs.empty() && !r.returned)
                    break;
                if (d && (last || (r.ndiag && r.diag == d)))
                {
                    diag(r, d);
                    break;
                }
                if (!d && (last || (!r.ndiag && (long long) r.recs.size() == n &&
                                    (!n || rec_kind_ok(r.recs[0], e)))))
                {
                    recs(r, 1, n, e);
                    break;
                }
            }
            count("probe.search_ok");
            return;
        }
        if (q.st < 1 || q.n < 0 || q.st > SIZE + 1 || q.n > SIZE - q.st + 1)
            diag(r, 13);
        else if (refusal(q.sy, q.es))
            diag(r, refusal(q.sy, q.es));
        else if (q.n && (q.es.compare(0, 3, "FF-") == 0 || q.es.size() > 5 || q.es == "FFx"))
            count("probe.huge_survived");
        else
            recs(r, q.st, q.n, q.es);
        count("probe.present_ok");
    }
    void one()
    {
        Q q = mk();
        Resp r;
        go(q.bytes, q.search ? Z_APDU_searchResponse : Z_APDU_presentResponse, r);
        check(q, r);
    }
    void pipe()
    {
        std::map<std::string, Q> qs;
        std::string all;
        int m = 2 + draw_a(ST_OP, actor, 4);
        for (int i = 0; i < m; i++)
        {
            Q q = mk();
            all += q.bytes;
            qs[last_ref] = q;
        }
        send_raw(all);
        for (int i = 0; i < m; i++)
        {
            Resp r = recv();
            if (!r.ok() || !qs.count(r.refid))
                violation("pipeline", "client %u: %d of %d answered: %s", actor, i, m, r.show().c_str());
            Q q = qs[last_ref = r.refid];
            qs.erase(r.refid);
            if (r.which != (q.search ? Z_APDU_searchResponse : Z_APDU_presentResponse))
                violation("wrong-type", "%s: %s", who().c_str(), r.show().c_str());
            check(q, r);
        }
        count("probe.pipelined_batch");
    }
    void early()
    {
        close();
        must_connect();
        Resp r;
        std::string b = draw_a(ST_OP, actor, 2) ? mk().bytes : b_scan(ref(), "Default", "a", 3, 1);
        go(b, Z_APDU_close, r);
        lost("no init");
        count("probe.no_init");
    }
    void odd()
    {
        Resp r;
        std::string b;
        switch (draw_a(ST_OP, actor, 4))
        {
        case 0: b = b_scan(ref(), "Default", "a", 3, 1); break;
        case 1: b = b_delete(ref(), "default"); break;
        case 2: b = b_es(ref()); break;
        default: b = b_close(ref());
        }
        go(b, Z_APDU_close, r);
        lost("unsupported");
        count("probe.odd_request");
    }
};
}
SCENARIO(btest)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    wild = draw(ST_KNOB, 8) == 7;
    mixed = draw(ST_KNOB, 8) == 7;
    fewer = draw(ST_KNOB, 8) == 7;      // medium set number less than a small set
    all_named = draw(ST_KNOB, 2);
    any_named = false;
    if (wild)
        class_prefix("wild-sizes:");
    std::string filters, pre = passthru(&filters);
    if (!filters.empty())
        filters = "<filters>" + filters + "</filters>";
    start_proxy(mp_config(filters + "<routes><route id=\"start\">" + frontend(9000, rand_threads()) + pre +
                          "<filter type=\"backend_test\"/><filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    int nc = 1 + draw(ST_KNOB, 8);
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            TClient c(a);
            int nops = 2 + draw_a(ST_OP, a, 14);
            for (int z = 0; z < nops; z++)
            {
                unsigned op = draw_a(ST_OP, a, 16);
                if (op_skipped(a, std::min(z, 11)))
                    continue;
                c.pfx = strf("c%u.%d", a, z);
                if (op == 15)
                {
                    c.early();
                    continue;
                }
                if (!c.up || op == 14)
                    c.start();
                if (op == 13)
                    c.odd();
                else if (op >= 9 && K.pipe_cap >= 4096)   // neither end reads while it writes
                    c.pipe();
                else
                    c.one();
            }
            c.close();
        });
    cl.wait();
    if (!wait_fds(fds0, 120 * SEC))
        violation("leak", "descriptors are still open");
}
