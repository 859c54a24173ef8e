// C13: simple authentication. C14: the limit filter.
#include "zm.hpp"
#include <algorithm>
using namespace sim;

static std::map<std::string, std::vector<int>> got_at;     // request -> targets
static ZServer *A[3];

namespace {
struct User { const char *name, *pass; std::vector<std::string> dbs, targets; };
}
static const User users[] = {
    { "u0", "p0", { "db1", "db2" }, { "b1:210", "b2:210" } },
    { "u1", "p1", { "db3" }, { "b2:210" } },
    { "u2", "p2", { "*" }, { "*" } },
    { "u3", "p3", { "db1", "DB3" }, {} },
};
static const int NU = 4;
static bool has(const std::vector<std::string> &l, const std::string &x)
{
    for (auto &e : l)
        if (e == "*" || strcasecmp(e.c_str(), x.c_str()) == 0)
            return true;
    return false;
}
static std::string join_s(const std::vector<std::string> &l, const char *sep)
{
    std::string s;
    for (auto &e : l)
        s += (s.empty() ? "" : sep) + e;
    return s;
}
SCENARIO(auth)
{
    swarm_sched();
    if (chance(ST_KNOB, 1, 2))
        K.preempt_mean = 40 + 60 * draw(ST_KNOB, 3);
    swarm_net();
    dns("proxy", true);
    int mode = draw(ST_KNOB, 3);       // users, targets, both
    bool by_user = mode != 1, by_target = mode != 0;
    bool discard = by_target && chance(ST_KNOB, 1, 2);
    for (int i = 0; i < 3; i++)
    {
        A[i] = new ZServer(strf("b%d", i + 1), 210, 1000 + 500 * i);
        A[i]->on_req = [i](BConn &, BReq &r) {
            if (r.which != Z_APDU_initRequest)
                got_at[r.refid].push_back(i);
        };
        std_backend(*A[i]);
    }
    std::string ur = "# users\n\n", tr = "# targets\n";
    for (auto &u : users)
    {
        ur += strf("%s:%s:%s\n", u.name, u.pass, join_s(u.dbs, ",").c_str());
        if (!u.targets.empty())
        {   // the host part of a target has a colon too
            tr += strf("%s:%s\n", u.name, join_s(u.targets, ",").c_str());
        }
    }
    int nc = 1 + draw(ST_KNOB, 9);
    int ncycles = 1 + draw(ST_KNOB, 4);
    std::string fsec, pt;
    if (chance(ST_KNOB, 1, 4))
        pt = passthru(&fsec);
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        frontend(9000, rand_threads()) + pt + "<filter type=\"auth_simple\">" +
        (by_user ? "<userRegister>" + memfile(ur) + "</userRegister>" : "") +
        (by_target ? "<targetRegister>" + memfile(tr) + "</targetRegister>" : "") +
        (discard ? "<discardUnauthorisedTargets/>" : "") + "</filter>" +
        (by_target ? "<filter type=\"multi\"/>" : "") + zclient() + "</route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 2 * ncycles);
            for (int k = 0; k < rounds; k++)
            {
                MClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                int ui = draw_a(ST_OP, a, NU);
                const User *up = &users[ui];
                const User &u = *up;
                std::string name = u.name, pass = u.pass;
                bool good = true;
                switch (draw_a(ST_OP, a, 10))
                {
                case 6: pass = users[(ui + 1) % NU].pass; good = false; break;
                case 7: name = "nobody"; good = false; break;
                case 8: name = pass = ""; good = false; break;
                case 9: pass = ""; good = false; break;
                }
                std::vector<std::string> tg, ok;
                if (by_target)
                    for (int t = 0; t < 3; t++)
                        if (draw_a(ST_OP, a, 2) || (t == 2 && tg.empty()))
                        {
                            std::string h = strf("b%d:210", t + 1);
                            tg.push_back(h);
                            if (name == u.name && has(u.targets, h))
                                ok.push_back(h);
                        }
                bool pass_in = (!by_user || good) &&
                    (!by_target || (discard ? !ok.empty() : ok.size() == tg.size()));
                int nops = 1 + draw_a(ST_OP, a, 6);
                if (op_skipped(a, 12))
                    continue;
                c.must_connect();
                Resp r;
                std::string bytes = c.b_init(c.ref(), name, pass, true, 3, join_s(tg, "+"));
                if (!pass_in)
                {
                    count("probe.auth_rejected");
                    std::string early = c.pfx + "-early";
                    if (draw_a(ST_OP, a, 2))
                        bytes += c.b_search(early, "h3_x");
                    // requests sent ahead may be answered first
                    c.send_raw(bytes);
                    c.tolerate = true;
                    for (int j = 0; ; j++)
                    {
                        r = c.recv();
                        if (!r.ok())
                            break;
                        if (r.init_ok || r.hits > 0 || !r.recs.empty())
                            violation("let-in", "%s: user %s/%s targets %s: %s",
                                      c.who().c_str(), name.c_str(), pass.c_str(),
                                      join_s(tg, "+").c_str(), r.show().c_str());
                        if (j == 3)
                            violation("goes-on", "%s: after rejection: %s", c.who().c_str(),
                                      r.show().c_str());
                    }
                    if (!r.closed())
                        violation("goes-on", "%s: after rejection: %s", c.who().c_str(),
                                  r.show().c_str());
                    if (got_at.count(early))
                        violation("forwarded", "%s: request of a rejected session",
                                  c.who().c_str());
                    c.close();
                    continue;
                }
                if (!c.go(bytes, Z_APDU_initResponse, r))
                    continue;
                if (!r.init_ok)
                    violation("kept-out", "%s: user %s/%s targets %s: %s",
                              c.who().c_str(), name.c_str(), pass.c_str(),
                              join_s(tg, "+").c_str(), r.show().c_str());
                std::vector<int> want;
                if (by_target)
                    for (auto &t : ok)
                        want.push_back(t[1] - '1');
                else
                    want.push_back(0);
                for (int j = 0; j < nops && !c.dead; j++)
                {
                    static const char *dbs[] = { "db1", "db2", "db3", "DB1", "db4" };
                    std::vector<std::string> d = { dbs[draw_a(ST_OP, a, 5)] };
                    if (draw_a(ST_OP, a, 5) == 4)
                        d.push_back(dbs[draw_a(ST_OP, a, 5)]);
                    unsigned kind = draw_a(ST_OP, a, 6);
                    if (op_skipped(a, j))
                        continue;
                    if (!by_target && draw_a(ST_OP, a, 8) == 7)
                    {   // log in as somebody else on the same session
                        up = &users[draw_a(ST_OP, a, NU)];
                        name = up->name;
                        if (!c.go(c.b_init(c.ref(), name, up->pass), Z_APDU_initResponse, r))
                            break;
                        if (!r.init_ok)
                            violation("kept-out", "%s: second login as %s: %s", c.who().c_str(), name.c_str(),
                                      r.show().c_str());
                        count("probe.auth_again");
                        c.sets.clear();
                        continue;
                    }
                    bool may = true;
                    if (kind == 5 && d.size() > 1)
                        d.pop_back();       // scan takes one
                    for (auto &x : d)
                        may = may && (!by_user || has(up->dbs, x));
                    if (kind == 4 && !c.sets.empty())
                    {
                        auto &s = *c.sets.begin();
                        if (!c.go(c.b_present(c.ref(), s.first, 2, 1), Z_APDU_presentResponse, r))
                            break;
                        if (r.recs.size() != 1 || r.recs[0].find("q=\"" + s.second.term) ==
                            std::string::npos)
                            violation("wrong-record", "%s: %s", c.who().c_str(),
                                      r.show().c_str());
                        continue;
                    }
                    std::string term = uterm(a, c.n, 5);
                    if (kind == 5)
                    {
                        if (!c.go(c.b_scan(c.ref(), d[0], "m", 3, 1), Z_APDU_scanResponse, r))
                            break;
                    }
                    else
                    {
                        SearchOpt so;
                        so.dbs = d;
                        so.set = "s1";
                        if (!c.go(c.b_search(c.ref(), term, so), Z_APDU_searchResponse, r))
                            break;
                    }
                    auto got = got_at[c.last_ref];
                    std::sort(got.begin(), got.end());
                    if (!may)
                    {
                        count("probe.auth_denied_db");
                        if (r.diag != 236)
                            violation("database-let-in", "%s: user %s databases %s: %s",
                                      c.who().c_str(), name.c_str(),
                                      join_s(d, "+").c_str(), r.show().c_str());
                        if (!got.empty())
                            violation("forwarded", "%s: denied search", c.who().c_str());
                        c.tolerate = true;      // the session ends
                        Resp r2 = c.recv();
                        if (!r2.closed() && !(r2.ok() && r2.which == Z_APDU_close))
                            violation("goes-on", "%s: after denial: %s", c.who().c_str(),
                                      r2.show().c_str());
                        c.close();
                        c.dead = true;
                        break;
                    }
                    if (got != want)
                        violation("wrong-targets", "%s: user %s targets %s: seen at %zu, "
                                  "want %zu", c.who().c_str(), name.c_str(),
                                  join_s(tg, "+").c_str(), got.size(), want.size());
                    if (r.ndiag || (kind != 5 && r.hits != 5LL * (long long) want.size()) ||
                        (kind == 5 && r.terms.size() != 3))
                        violation("kept-out", "%s: user %s databases %s: %s",
                                  c.who().c_str(), name.c_str(), join_s(d, "+").c_str(),
                                  r.show().c_str());
                    if (kind != 5)
                        c.sets["s1"] = { "b1", d[0], term, 5, "" };
                }
                if (!c.dead)
                    c.bye();
            }
        });
    cl.wait();
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
// -------------------------------------------------------------------- limit
namespace {
struct Ev { i64 t0, t1; long long bytes; bool search; };
struct LimClient : MClient {
    std::vector<Ev> ev;
    int smax, pmax, bmax, rmax;
    explicit LimClient(unsigned a) : MClient(a) {}
    // how long the answer must and may take, from what was done in the last minute
    void check(const std::string &bytes, i64 t0, const Resp &r, bool search, i64 slack)
    {
        i64 t1 = now();
        ev.push_back({ t0, t1, (long long) bytes.size() + (long long) r.m->raw.size(), search });
        auto over = [&](i64 win, bool least) {
            long long s = 0, p = 0, b = 0;
            for (auto &e : ev)
                if ((least ? e.t0 : e.t1) > t1 - win)
                {
                    s += e.search;
                    p++;
                    b += e.bytes;
                }
            // the borders: counted as offending only when clearly above
            if (least)
                return (smax && s > smax) || (pmax && p > pmax + 1) ||
                    (bmax && b > bmax + 200);
            return (smax && s >= smax) || (pmax && p >= pmax) ||
                (bmax && b >= bmax - 200);
        };
        if (over(50 * SEC, true))
        {
            count("probe.limit_offender");
            if (t1 - t0 < SEC)
                violation("not-slowed", "%s: over the limit, answered in %.3f s",
                          who().c_str(), (t1 - t0) / 1e6);
        }
        else if (!over(100 * SEC, false))
        {
            count("probe.limit_within");
            if (t1 - t0 > slack)
                violation("delayed", "%s: within the limit, answered in %.3f s",
                          who().c_str(), (t1 - t0) / 1e6);
        }
    }
};
}
SCENARIO(limitf)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    ZServer srv("b1", 210, 1000);
    static bool slow;
    slow = chance(ST_KNOB, 1, 4);
    srv.policy = [](BConn &, BReq &r) {
        return slow && r.term.find("_c100_") != std::string::npos ? B_DELAY : B_OK;
    };
    std_backend(srv);
    static const int sm[] = { 0, 2, 5, 1 }, pm[] = { 0, 10, 100, 4 }, rm[] = { 0, 5, 1, 20 };
    static const int bm[] = { 0, 3000, 50000, 800 };
    int smax = sm[draw(ST_KNOB, 4)], pmax = pm[draw(ST_KNOB, 4)];
    int bmax = bm[draw(ST_KNOB, 4)], rmax = rm[draw(ST_KNOB, 4)];
    std::string lat;
    if (smax) lat += strf(" search=\"%d\"", smax);
    if (pmax) lat += strf(" pdu=\"%d\"", pmax);
    if (bmax) lat += strf(" bandwidth=\"%d\"", bmax);
    if (rmax) lat += strf(" retrieve=\"%d\"", rmax);
    int nc = 1 + draw(ST_KNOB, 5);
    // a request being delayed holds a worker thread: have enough of them
    start_proxy(mp_config("<routes><route id=\"start\">" +
        frontend(9000, strf("<threads>%d</threads>", nc + 4)) +
        "<filter type=\"limit\"><limit" + lat + "/></filter>" + zclient() +
        "</route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    i64 slack = SEC / 2 + 40 * K.lat_max + 8 * K.lat_spike + K.stall_max_ms * 40 * MS;
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 2);
            static const i64 gap[] = { 0, 2 * SEC, 15 * SEC, 300 * MS };
            for (int k = 0; k < rounds; k++)
            {
                LimClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                c.smax = smax;
                c.pmax = pmax;
                c.bmax = bmax;
                c.rmax = rmax;
                int nops = 3 + draw_a(ST_OP, a, 14);
                i64 g = gap[draw_a(ST_OP, a, 4)];
                if (op_skipped(a, 13))
                    continue;
                c.must_connect();
                Resp r;
                std::string b = c.b_init(c.ref());
                i64 t0 = now();
                if (!c.go(b, Z_APDU_initResponse, r))
                    continue;
                c.check(b, t0, r, false, slack);
                for (int j = 0; j < nops; j++)
                {
                    unsigned kind = draw_a(ST_OP, a, 5);
                    unsigned x = draw_a(ST_OP, a, 4);
                    if (op_skipped(a, std::min(j, 11)))
                        continue;
                    sleep_us(g);
                    std::string set = strf("s%u", x % 2);
                    bool search = kind < 2 || c.sets.empty();
                    t0 = now();
                    if (search)
                    {
                        std::string term = uterm(a, c.n, 100);
                        SearchOpt so;
                        so.set = set;
                        b = c.b_search(c.ref(), term, so);
                        c.go(b, Z_APDU_searchResponse, r);
                        if (r.hits != 100)
                            violation("wrong-hits", "%s: %s", c.who().c_str(),
                                      r.show().c_str());
                        c.sets[set] = { "b1", "Default", term, 100, "" };
                    }
                    else
                    {
                        static const int nn[] = { 1, 8, 50, 30 };
                        if (!c.sets.count(set))
                            set = c.sets.begin()->first;
                        int n = nn[x];
                        if (rmax && draw_a(ST_OP, a, 2))
                            n = rmax + draw_a(ST_OP, a, 4);
                        b = c.b_present(c.ref(), set, 1 + x * 20, n, "xml", "F");
                        c.go(b, Z_APDU_presentResponse, r);
                        int want = rmax ? std::min(n, rmax) : n;
                        if (x * 20 + want > 100)
                        {
                            if (r.diag != 13)
                                violation("wrong-diag", "%s: %s", c.who().c_str(), r.show().c_str());
                        }
                        else
                            c.check_recs(r, c.sets[set], 1 + x * 20, want, "xml", "F");
                    }
                    c.check(b, t0, r, search, slack + (slow && a == 100 ? 16 * SEC : 0));
                }
                c.quiet(draw_a(ST_OP, a, 2) * SEC);
                c.bye();
            }
        });
    cl.wait();
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
