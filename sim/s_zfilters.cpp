// Single-chain Z39.50 filters: C15 present_chunk, C16 sort, C14 limit, C25
#include "zm.hpp"
using namespace sim;

// ---------------------------------------------------------------- C15
static BAct pick(const std::vector<BAct> &v, unsigned actor, unsigned den)
{
    if (!chance_a(ST_FAULT, actor, 1, den))
        return B_OK;
    return v[draw_a(ST_FAULT, actor, (unsigned) v.size())];
}
SCENARIO(chunk)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    dns("b1", true);
    static int chunk = 1 + draw(ST_KNOB, 7);
    if (chance(ST_KNOB, 1, 8))
        chunk = 30;
    static unsigned fden = 0;
    static bool killers = false;
    static const unsigned fd[] = { 0, 8, 3 };
    fden = fd[draw(ST_KNOB, 3)];
    killers = chance(ST_KNOB, 1, 3);
    static std::map<int, BAct> last_act;   // per backend connection
    static unsigned acts;
    srv.policy = [](BConn &c, BReq &r) {
        if (r.which != Z_APDU_presentRequest)
            return B_OK;
        if (r.num > chunk)
            violation("chunk-size", "backend asked for %lld records at once, "
                      "chunk is %d", r.num, chunk);
        BAct a = B_OK;
        if (fden)
            a = pick(killers ? std::vector<BAct>{ B_FEWER, B_MORE, B_NORECS,
                B_DIAG, B_SURR, B_CLOSE, B_RESET, B_PARTIAL, B_SILENT,
                B_WRONG_APDU, B_CLOSE_APDU, B_NRET_LIE } :
                std::vector<BAct>{ B_FEWER, B_MORE, B_NORECS, B_DIAG, B_SURR },
                c.actor, fden);
        if (a)
            last_act[c.id] = a;
        acts |= 1u << a;
        return a;
    };
    srv.start();
    start_proxy(mp_config("<routes><route id=\"start\">" +
        frontend(9000, "", draw(ST_KNOB, 3)) +
        strf("<filter type=\"present_chunk\"><chunk>%d</chunk></filter>", chunk) +
        "<filter type=\"z3950_client\"><timeout>20</timeout>"
        "<default_target>b1:210</default_target></filter>"
        "<filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    Clients cl;
    int nc = 1 + draw(ST_KNOB, 3);
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            MClient c(a);
            c.must_connect();
            c.init();
            static const long long hh[] = { 12, 1, 5, 23, 40 };
            long long hits = hh[draw_a(ST_OP, a, 5)];
            std::string term = uterm(a, 0, hits);
            c.search("s", "b1", "d", term);
            int nops = 1 + draw_a(ST_OP, a, 4);
            for (int k = 0; k < nops; k++)
            {
                long long st = 1 + draw_a(ST_OP, a, (unsigned) hits);
                long long n = 1 + draw_a(ST_OP, a, (unsigned) (hits - st + 1));
                unsigned odd = draw_a(ST_OP, a, 12);
                if (op_skipped(a, k))
                    continue;
                static const long long oddn[] = { 0, -1, -2000000000LL, 200,
                    100000, 2147483647LL };
                if (odd == 1)
                    n = oddn[draw_a(ST_OP, a, 6)];
                std::string set = odd == 2 ? "nosuch" : "s";
                size_t log0 = 0;
                (void) log0;
                last_act.clear();
                acts = 0;
                Resp r;
                i64 t0 = now();
                r = c.call(c.b_present(c.ref(), set, st, n, "xml", "F"));
                BAct la = B_OK;
                for (auto &x : last_act)
                    if (x.second)
                        la = x.second;
                bool fault = nc > 1 ? fden > 0 : la != B_OK;
                long long budget = (n > 0 ? n / chunk + 2 : 2);
                if (budget > 60)
                    budget = 60;
                if (now() - t0 > budget * 25 * SEC + 30 * SEC)
                    violation("late", "%s took %.1f s", c.who().c_str(),
                              (now() - t0) / 1e6);
                if (r.kind == RK_TIMEOUT)
                    violation("no-response", "%s", c.who().c_str());
                if (fault && killers && (r.closed() ||
                    (r.ok() && r.which == Z_APDU_close)))
                {
                    if (r.closed())
                        violation("no-response", "%s: connection ended without "
                                  "an answer", c.who().c_str());
                    if (r.has_refid && r.refid != c.last_ref)
                        violation("wrong-refid", "%s: %s", c.who().c_str(),
                                  r.show().c_str());
                    c.close();
                    return;
                }
                if (fault && killers && r.ok() && r.which != Z_APDU_presentResponse)
                {
                    c.close();   // wrong APDU passed on
                    return;
                }
                if (!r.ok() || r.which != Z_APDU_presentResponse)
                    violation("wrong-type", "%s: %s", c.who().c_str(),
                              r.show().c_str());
                if (r.refid != c.last_ref)
                    violation("wrong-refid", "%s: got '%s'", c.who().c_str(),
                              r.refid.c_str());
                if (!fault)
                {
                    if (set == "nosuch" && n > 0)
                    {
                        if (r.diag != 30)
                            violation("wrong-diag", "%s: %s", c.who().c_str(),
                                      r.show().c_str());
                    }
                    else if (n < 0 || n == 0 || st + n - 1 > hits)
                    {
                        if (n != 0 && r.diag != 13)
                            violation("wrong-diag", "%s: %lld+%lld of %lld: %s",
                                      c.who().c_str(), st, n, hits, r.show().c_str());
                    }
                    else
                    {
                        c.check_recs(r, c.sets["s"], st, n, "xml", "F");
                        if (r.present_status != Z_PresentStatus_success)
                            violation("status", "%s: status %d", c.who().c_str(),
                                      r.present_status);
                        int next = st + n > hits ? 0 : (int) (st + n);
                        if (r.next != next)
                            violation("next-position", "%s: %lld+%lld of %lld: "
                                      "next %d", c.who().c_str(), st, n, hits, r.next);
                    }
                    count("probe.exact_window");
                }
                else if (n > 0 && set == "s" && !r.recs.empty())
                {   // what there is must be a prefix of the window
                    if ((long long) r.recs.size() > n)
                        violation("record-count", "%s: asked %lld got %zu",
                                  c.who().c_str(), n, r.recs.size());
                    for (size_t q = 0; q < r.recs.size(); q++)
                    {
                        std::string w = rec_text("b1", "d", term, st + q, "F", "xml");
                        if (r.recs[q] != w && r.recs[q].compare(0, 5, "diag:"))
                            violation("wrong-record", "%s: position %lld: %s",
                                      c.who().c_str(), st + (long long) q,
                                      r.recs[q].c_str());
                    }
                    // short, but the records are all right: go on from there
                    int next = st + (int) r.recs.size() > hits ? 0 : (int) (st + r.recs.size());
                    if (nc == 1 && !(acts & ~(1u << B_OK | 1u << B_FEWER | 1u << B_NORECS)) &&
                        r.next != next)
                        violation("next-position", "%s: %lld+%zu of %lld: next %d",
                                  c.who().c_str(), st, r.recs.size(), hits, r.next);
                    count("probe.faulty_window");
                }
            }
            c.bye();
        });
    cl.wait();
}
