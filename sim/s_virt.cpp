// C10: virtual databases. C11: load balancing.
#include "zm.hpp"
#include <algorithm>
using namespace sim;

namespace {
struct VPart { int srv; std::string db, vhost; };
struct VSet { std::vector<VPart> parts; std::string term, fdb; long long hits; };
}
static const int NS = 3;
static ZServer *S[NS];
static bool V_multi, V_faults;
static std::map<std::string, std::vector<int>> seen;     // request -> targets

static void see(ZServer *s, int i)
{
    s->on_req = [i](BConn &c, BReq &r) {
        if (r.which != Z_APDU_initRequest)
            seen[r.refid].push_back(i);
        else if (c.user.compare(0, 1, "u") != 0)
            violation("credentials", "target %d got an init with user '%s'", i,
                      c.user.c_str());
    };
}
// the configured mapping; false: database unknown
static bool vmap(const std::string &db, std::vector<VPart> &p, std::string &route)
{
    std::string d = db;
    for (auto &c : d)
        c = tolower(c);
    route = "";
    if (d == "db1")
        p = { { 0, "alpha", "b1:210/alpha" } };
    else if (d == "db2")
        p = { { 1, "beta", "b2:210/beta" } };
    else if (d == "both")
        p = { { 0, "alpha", "b1:210/alpha" }, { 1, "beta", "b2:210/beta" } };
    else if (d == "special")
    {
        p = { { 2, "sp", "b3:210/sp" } };
        route = "other";
    }
    else if (d.compare(0, 3, "any") == 0)
        p = { { 2, db, "b3:210" } };
    else if (d == "two1")
        p = { { 0, "one", "b1:210/one" } };
    else
        return false;
    return true;
}
namespace {
struct VClient : MClient {
    std::map<std::string, VSet> vsets;
    int k = 0;
    explicit VClient(unsigned a) : MClient(a) {}
    void routed(const std::vector<VPart> &p)
    {
        std::vector<int> want, got = seen[last_ref];
        for (auto &x : p)
            want.push_back(x.srv);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want)
        {
            std::string s;
            for (int g : got)
                s += strf(" b%d", g + 1);
            violation("misrouted", "%s: %zu targets expected (b%d..), seen at%s",
                      who().c_str(), want.size(), want.empty() ? 0 : want[0] + 1,
                      s.c_str());
        }
    }
    // merged round robin
    std::vector<std::pair<int, long long>> order(const VSet &s)
    {
        std::vector<std::pair<int, long long>> v;
        for (long long i = 1; i <= s.hits; i++)
            for (size_t p = 0; p < s.parts.size(); p++)
                v.push_back({ (int) p, i });
        return v;
    }
    void vsearch(const std::string &set)
    {
        unsigned a = actor;
        static const char *dbs[] = { "db1", "db2", "special", "any1", "any2", "DB1",
            "two1", "both", "nosuch", "db1+db2", "db1+special", "db2+nosuch", "Any1" };
        std::string spec = dbs[draw_a(ST_OP, a, 13)];
        static const long long hh[] = { 3, 0, 17, 40 };
        std::string term = uterm(a, k++, hh[draw_a(ST_OP, a, 4)]);
        bool err = draw_a(ST_OP, a, 8) == 7;
        if (err)
            term = "err" + strf("%d", 101 + (int) draw_a(ST_OP, a, 3));
        SearchOpt so;
        so.set = set;
        so.replace = draw_a(ST_OP, a, 6) != 5;
        if (draw_a(ST_OP, a, 5) == 4 && !V_multi)
        {
            so.small = 5;
            so.syntax = "xml";
        }
        if (!V_multi && draw_a(ST_OP, a, 3) == 2)
            so.asi = "ai" + std::to_string(actor);
        so.dbs.clear();
        VSet v;
        v.term = term;
        v.hits = term_hits(term);
        v.fdb = spec.substr(0, spec.find('+'));
        bool known = true, conflict = false;
        std::string route, r1;
        for (size_t i = 0; i <= spec.size();)
        {
            size_t e = std::min(spec.find('+', i), spec.size());
            std::string d = spec.substr(i, e - i);
            so.dbs.push_back(d);
            std::vector<VPart> p;
            if (!vmap(d, p, r1))
                known = false;
            else if (known && !conflict)
            {
                if (i && r1 != route)
                    conflict = true;
                route = r1;
                for (auto &x : p)
                    if (std::find_if(v.parts.begin(), v.parts.end(), [&](VPart &y) {
                            return y.vhost == x.vhost; }) == v.parts.end())
                        v.parts.push_back(x);
            }
            i = e + 1;
        }
        Resp r;
        if (!go(b_search(ref(), term, so), Z_APDU_searchResponse, r))
            return;
        if (!so.replace && vsets.count(set))
        {
            if (r.diag != 21)
                violation("wrong-diag", "%s: replace off, set exists: %s",
                          who().c_str(), r.show().c_str());
            routed({});
            return;
        }
        if (!known || conflict)
        {
            if (r.diag != (conflict ? 23 : 235) && !(r.diag == 235 || r.diag == 23))
                violation("wrong-diag", "%s: database %s: %s", who().c_str(),
                          spec.c_str(), r.show().c_str());
            routed({});
            count("probe.virt_refused");
            return;
        }
        if (v.parts.size() > 1 && !V_multi)
        {   // not possible without the multi filter
            if (!r.ndiag)
                violation("missing-diag", "%s: %s: %s", who().c_str(), spec.c_str(),
                          r.show().c_str());
            routed({});
            return;
        }
        bool down = false;
        for (auto &p : v.parts)
            down = down || S[p.srv]->init_fail || !S[p.srv]->listener;
        if (down || (r.ndiag && seen[last_ref].empty() && V_faults))
        {   // could not be opened (or an older backend session is still there)
            if (r.ndiag && seen[last_ref].empty())
            {
                if (r.diag != 109 && r.diag != 236 && r.diag != 2 && r.diag < 1000 &&
                    r.diag != 1 && r.diag != 100)
                    violation("wrong-diag", "%s: target refuses: %s", who().c_str(),
                              r.show().c_str());
                count("probe.virt_target_refuses");
                return;     // existing sets are as before
            }
        }
        routed(v.parts);
        for (auto &p : v.parts)
            for (auto it = S[p.srv]->log.rbegin(); it != S[p.srv]->log.rend(); ++it)
                if (it->refid == last_ref)
                {
                    if (it->term != term || it->dbs.size() != 1 || it->dbs[0] != p.db)
                        violation("wrong-query", "%s: %s: target got term %s database "
                                  "%s, want %s", who().c_str(), spec.c_str(),
                                  it->term.c_str(), it->dbs.empty() ? "-" :
                                  it->dbs[0].c_str(), p.db.c_str());
                    break;
                }
        if (err)
        {
            vsets.erase(set);
            if (r.diag != atoi(term.c_str() + 3) && !(V_faults && r.ndiag))
                violation("wrong-diag", "%s: %s: %s", who().c_str(), term.c_str(),
                          r.show().c_str());
            return;
        }
        if (V_faults && r.ndiag)
        {
            vsets.erase(set);
            return;
        }
        if (r.ndiag || r.hits != v.hits * (long long) v.parts.size() || !r.success)
            violation("wrong-hits", "%s: search %s in %s: %s", who().c_str(),
                      term.c_str(), spec.c_str(), r.show().c_str());
        check_asi(r, so.asi, term);
        vsets[set] = v;
        if (so.small && v.hits <= so.small)
            vrecs(r, v, 1, v.hits, "xml", "");
    }
    void vrecs(const Resp &r, const VSet &s, long long st, long long n,
               const std::string &sy, const std::string &es)
    {
        if (r.ndiag || (long long) r.recs.size() != n)
            violation("record-count", "%s: want %lld: %s", who().c_str(), n,
                      r.show().c_str());
        auto o = order(s);
        for (long long i = 0; i < n; i++)
        {
            auto &e = o[st - 1 + i];
            const VPart &p = s.parts[e.first];
            std::string want = rec_text(S[p.srv]->host, p.db, s.term, e.second, es, sy);
            if (r.recs[i] != want)
                violation("wrong-record", "%s: %lld+%lld: record %lld: want %s got %s",
                          who().c_str(), st, n, i, want.c_str(), r.recs[i].c_str());
            std::string d = s.fdb;
            if (p.srv == 1 && s.parts.size() > 1 && d != "both")
                d = "db2";
            if (strcasecmp(r.rec_db[i].c_str(), d.c_str()))
                violation("mislabelled", "%s: %lld+%lld: record %lld: want %s got %s",
                          who().c_str(), st, n, i, d.c_str(), r.rec_db[i].c_str());
        }
    }
    void vpresent(const std::string &set)
    {
        unsigned a = actor;
        VSet s = vsets[set];
        long long tot = s.hits * (long long) s.parts.size(), st = 1, n = 1;
        bool range = tot == 0 || draw_a(ST_OP, a, 10) == 9;
        if (range)
            st = tot + 1;
        else
        {
            st = 1 + draw_a(ST_OP, a, (unsigned) tot);
            n = 1 + draw_a(ST_OP, a, (unsigned) std::min(9LL, tot - st + 1));
        }
        std::string sy = rand_syntax(a), es = draw_a(ST_OP, a, 2) ? "F" : "B";
        Resp r;
        if (!go(b_present(ref(), set, st, n, sy, es), Z_APDU_presentResponse, r))
            return;
        if (V_faults && r.ndiag)
            return;
        if (range)
        {
            if (r.diag != 13)
                violation("wrong-diag", "%s: want 13: %s", who().c_str(),
                          r.show().c_str());
            return;
        }
        vrecs(r, s, st, n, sy, es);
        std::vector<VPart> p;
        auto o = order(s);
        for (size_t i = 0; i < s.parts.size(); i++)
            for (long long j = 0; j < n; j++)
                if (o[st - 1 + j].first == (int) i)
                {
                    p.push_back(s.parts[i]);
                    break;
                }
        routed(p);
    }
    void vscan()
    {
        unsigned a = actor;
        static const char *dbs[] = { "db1", "db2", "special", "any1", "nosuch" };
        std::string db = dbs[draw_a(ST_OP, a, 5)], route;
        std::vector<VPart> p;
        bool known = vmap(db, p, route);
        Resp r;
        if (!go(b_scan(ref(), db, "m", 3, 1), Z_APDU_scanResponse, r))
            return;
        if (!known)
        {
            if (r.diag != 235)
                violation("wrong-diag", "%s: want 235: %s", who().c_str(),
                          r.show().c_str());
            routed({});
            return;
        }
        if (V_faults && r.ndiag)
            return;
        routed(p);
        if (r.terms.size() != 3 || r.terms[0].first != strf("m1_b%d", p[0].srv + 1))
            violation("wrong-scan", "%s: %s: %s", who().c_str(), db.c_str(),
                      r.show().c_str());
    }
};
}
SCENARIO(virtdb)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    V_multi = chance(ST_KNOB, 1, 2);
    V_faults = chance(ST_KNOB, 1, 3);
    int named = draw(ST_KNOB, 4);     // all, none, some
    static unsigned fden;
    fden = 12 + 20 * draw(ST_KNOB, 3);
    for (int i = 0; i < NS; i++)
    {
        S[i] = new ZServer(strf("b%d", i + 1), 210, 1000 + 500 * i);
        S[i]->named = named == 0 || (named >= 2 && chance(ST_KNOB, 1, 2));
        see(S[i], i);
        if (V_faults)
            S[i]->policy = [](BConn &c, BReq &r) {
                static const BAct k[] = { B_DIAG, B_CLOSE, B_RESET, B_CLOSE_APDU };
                if (!V_faults || !chance_a(ST_FAULT, c.actor, 1, fden))
                    return B_OK;
                return k[draw_a(ST_FAULT, c.actor, 4)];
            };
        std_backend(*S[i]);
        for (auto &t : S[i]->scan_terms)
            t += strf("_b%d", i + 1);
    }
    int nc = 1 + draw(ST_KNOB, 4);
    std::string fsec, pt;
    if (chance(ST_KNOB, 1, 4))
        pt = passthru(&fsec);
    std::string mm = V_multi ? "<filter type=\"multi\"/>" : "";
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        frontend(9000, rand_threads()) + pt + "<filter type=\"virt_db\">"
        "<virtual><database>db1</database><target>b1:210/alpha</target></virtual>"
        "<virtual><database>db2</database><target>b2:210/beta</target></virtual>"
        "<virtual><database>both</database><target>b1:210/alpha</target>"
        "<target>b2:210/beta</target></virtual>"
        "<virtual route=\"other\"><database>special</database>"
        "<target>b3:210/sp</target></virtual>"
        "<virtual><database>any*</database><target>b3:210</target></virtual>"
        "<virtual><database>two?</database><target>b1:210/one</target></virtual>"
        "</filter>" + mm + zclient() + "</route><route id=\"other\">" + mm + zclient() +
        "</route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    bool faults = V_faults;
    if (V_faults)
    {
        if (chance(ST_FAULT, 1, 4))
        {
            S[draw(ST_FAULT, NS)]->init_fail = true;
            count("fault.target_rejects");
        }
        if (chance(ST_FAULT, 1, 4))
        {
            S[draw(ST_FAULT, NS)]->stop();
            count("fault.target_down");
        }
    }
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 2 + 2 * faults);
            for (int k = 0; k < rounds; k++)
            {
                VClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                c.tolerate = faults;
                int nops = 2 + draw_a(ST_OP, a, 16);
                if (op_skipped(a, 13))
                    continue;
                c.must_connect();
                if (!c.init(strf("u%u", a), "p"))
                    continue;
                for (int j = 0; j < nops && !c.dead; j++)
                {
                    unsigned kind = draw_a(ST_OP, a, 13);
                    std::string set = strf("s%u", draw_a(ST_OP, a, 3));
                    if (op_skipped(a, std::min(j, 11)))
                        continue;
                    Resp r;
                    if (kind == 12 && !faults && K.pipe_cap >= 4096)
                    {   // several requests at a time
                        int nb = 2 + draw_a(ST_OP, a, 4);
                        std::vector<std::shared_ptr<VClient>> subs;
                        std::vector<std::function<void()>> fn;
                        auto mux = std::make_shared<Mux>(&c);
                        for (int b = 0; b < nb; b++)
                        {
                            auto s = std::make_shared<VClient>(c);
                            subs.push_back(s);
                            s->mux = mux;
                            s->pfx += strf(".b%d.%d", c.k, b);
                            s->k = c.k + 100 * (b + 1);
                            unsigned w = draw_a(ST_OP, a, 5);
                            if (w == 4)
                                fn.push_back([s] { s->vscan(); });
                            else if (w == 3 || w == 2 || !c.vsets.count(set))
                                fn.push_back([s, b] { s->vsearch(strf("q%d", b)); });
                            else
                            {
                                std::string ps = set;
                                fn.push_back([s, ps] { s->vpresent(ps); });
                            }
                        }
                        parallel(a, fn);
                        c.k += 1000;
                        for (int b = 0; b < nb; b++)
                        {
                            std::string q = strf("q%d", b);
                            if (subs[b]->vsets.count(q))
                                c.vsets[q] = subs[b]->vsets[q];
                            else
                                c.vsets.erase(q);
                        }
                        continue;
                    }
                    if (kind < 4 || (kind < 9 && c.vsets.empty()))
                        c.vsearch(set);
                    else if (kind < 9)
                        c.vpresent(c.vsets.count(set) ? set : c.vsets.begin()->first);
                    else if (kind == 9)
                    {
                        if (c.go(c.b_present(c.ref(), "nosuch", 1, 1),
                                 Z_APDU_presentResponse, r) && r.diag != 30)
                            violation("wrong-diag", "%s: want 30: %s", c.who().c_str(),
                                      r.show().c_str());
                    }
                    else
                        c.vscan();
                }
                if (!c.dead)
                    c.bye();
            }
        });
    cl.wait();
    V_faults = false;
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
// ------------------------------------------------------------ load_balance
static int live(int i) { return S[i]->open_conns(); }
static int failed_at[NS];
static bool L_virt;
namespace {
struct LClient : MClient {
    int target = -1;
    explicit LClient(unsigned a) : MClient(a) {}
    void at_target()
    {
        auto &v = seen[last_ref];
        if (v.size() > 1)
            violation("duplicated", "%s: forwarded %zu times", who().c_str(), v.size());
        if (v.empty())
            return;
        if (target < 0)
            target = v[0];
        else if (target != v[0])
            violation("moved", "%s: session of b%d at b%d", who().c_str(), target + 1,
                      v[0] + 1);
    }
    bool op(const std::string &set)
    {
        unsigned a = actor;
        Resp r;
        if (!sets.count(set))
        {
            std::string t = uterm(a, n, 10);
            SearchOpt so;
            so.set = set;
            if (!go(b_search(ref(), t, so), Z_APDU_searchResponse, r))
                return false;
            at_target();
            if (r.ndiag && tolerate)
                return true;
            if (r.hits != 10 || seen[last_ref].empty())
                violation("wrong-hits", "%s: %s", who().c_str(), r.show().c_str());
            sets[set] = { S[target]->host, "Default", t, 10, "" };
            return true;
        }
        if (!go(b_present(ref(), set, 3, 2, "xml", "F"), Z_APDU_presentResponse, r))
            return false;
        at_target();
        if (r.ndiag && tolerate)
            return true;
        check_recs(r, sets[set], 3, 2, "xml", "F");
        return true;
    }
};
}
// the connection a session's last request came in on
static int drop_of(ZServer *s, LClient &c)
{
    for (auto it = s->log.rbegin(); it != s->log.rend(); ++it)
        if (it->refid == c.last_ref)
            return it->conn;
    return -1;
}
SCENARIO(loadbal)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    L_virt = chance(ST_KNOB, 1, 4);
    static bool faults;
    faults = chance(ST_KNOB, 1, 2);
    static unsigned fden;
    fden = 6 + 10 * draw(ST_KNOB, 3);
    static const i64 dm[] = { 0, 30 * MS };
    i64 dmax = dm[draw(ST_KNOB, 2)];
    memset(failed_at, 0, sizeof failed_at);
    int ns = 2 + draw(ST_KNOB, NS - 1);
    std::string vhost, targets;
    for (int i = 0; i < ns; i++)
    {
        S[i] = new ZServer(strf("b%d", i + 1), 210, 1000 + 500 * i);
        S[i]->delay_max = dmax;
        S[i]->on_req = [i](BConn &, BReq &r) {
            if (r.which != Z_APDU_initRequest)
                seen[r.refid].push_back(i);
        };
        S[i]->policy = [i](BConn &c, BReq &r) {
            static const BAct k[] = { B_DIAG, B_CLOSE, B_RESET, B_CLOSE_APDU };
            if (!faults || !chance_a(ST_FAULT, c.actor, 1, fden))
                return B_OK;
            BAct a = k[draw_a(ST_FAULT, c.actor, 4)];
            if (a != B_DIAG)
                failed_at[i]++;
            return a;
        };
        std_backend(*S[i]);
        vhost += strf("%sb%d:210", i ? "+" : "", i + 1);
        targets += strf("<target>b%d:210</target>", i + 1);
    }
    start_proxy(mp_config("<routes><route id=\"start\">" +
        frontend(9000, rand_threads()) + (L_virt ? "<filter type=\"virt_db\"><virtual>"
        "<database>Default</database>" + targets + "</virtual></filter>" : "") +
        "<filter type=\"load_balance\"/>" + zclient() + "</route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    if (L_virt)
        vhost = "";
    // many sessions at once, some of which stay
    static std::vector<LClient *> held;
    held.clear();
    int nc = draw(ST_KNOB, 6);
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 4);
            for (int k = 0; k < rounds; k++)
            {
                LClient *c = new LClient(a);
                c->pfx = strf("c%u.%d", a, k);
                c->tolerate = faults;
                int nops = draw_a(ST_OP, a, 6);
                int end = draw_a(ST_OP, a, 5);
                if (op_skipped(a, k))
                    continue;
                c->must_connect();
                if (!c->init("", "", true, vhost))
                    continue;
                for (int j = 0; j < nops && !c->dead; j++)
                    c->op(strf("s%d", j / 2));
                if (c->dead)
                    continue;
                Resp r;
                if (end == 0)
                    held.push_back(c);
                else if (end == 1)
                {
                    c->tolerate = true;
                    c->go(c->b_close(c->ref()), Z_APDU_close, r);
                    c->close();
                }
                else if (end == 2)
                {   // leaves with a request in progress
                    c->send_raw(c->b_search(c->ref(), "h5_x"));
                    sleep_us(draw_a(ST_OP, a, 3) * dmax / 2);
                    c->reset();
                }
                else if (end == 3 && !L_virt)
                {   // a second init is an error of the client, not of the counts
                    c->tolerate = true;
                    Resp r2;
                    c->send_raw(c->b_init(c->ref(), "", "", true, 3, vhost));
                    c->timeout = 5 * SEC;
                    c->recv();
                    count("probe.lb_double_init");
                    c->close();
                }
                else
                    c->close();
            }
        });
    cl.wait();
    faults = false;
    // what is left is one backend connection per session that stays
    auto held_open = [] {
        int n = 0;
        for (auto c : held)
            n += env_peer_closed(c->st.s) ? 0 : 1;
        return n;
    };
    sleep_us(40 * SEC);
    // now one after the other; the unique least loaded target must be taken
    int seq = 4 + draw(ST_KNOB, 10), recent[NS] = { 0 };
    std::set<int> drops;
    for (int k = 0; k < seq; k++)
    {
        unsigned what = draw_a(ST_OP, 110, 4);
        if (what == 3 && !held.empty())
        {
            size_t x = draw_a(ST_OP, 110, (unsigned) held.size());
            held[x]->close();
            held.erase(held.begin() + x);
            sleep_us(20 * SEC);
            continue;
        }
        if (what == 2 && !held.empty())
        {   // a target drops a session; that counts against it
            size_t x = draw_a(ST_OP, 110, (unsigned) held.size());
            LClient *c = held[x];
            int t = c->target;
            if (t < 0 || live(t) < 1)
                continue;
            for (auto &bc : S[t]->conns)
                if (bc->open && drops.count(bc->id) == 0 &&
                    drop_of(S[t], *c) == bc->id)
                {
                    drops.insert(bc->id);
                    env_reset(bc->st.s);
                    break;
                }
            sleep_us(SEC);
            c->tolerate = true;
            c->op("s");
            if (!c->dead)
                violation("harness", "session of a lost target goes on");
            held.erase(held.begin() + x);
            failed_at[t]++;
            recent[t]++;
            count("fault.session_dropped");
            sleep_us(20 * SEC);
            continue;
        }
        int best = -1, lv[NS];
        for (int i = 0; i < ns; i++)
            lv[i] = live(i);
        for (int i = 0; i < ns; i++)
        {
            bool least = failed_at[i] == 0;
            for (int j = 0; j < ns; j++)
                if (j != i && lv[i] >= lv[j] + recent[j])
                    least = false;
            if (least)
                best = i;
        }
        LClient *c = new LClient(110);
        c->pfx = strf("c110.%d", k);
        c->must_connect();
        c->init("", "", true, vhost);
        c->op("s");
        if (best >= 0)
        {
            count("probe.lb_decided");
            if (c->target != best)
            {
                std::string s;
                for (int i = 0; i < ns; i++)
                    s += strf(" b%d:%d+%d", i + 1, lv[i], recent[i]);
                violation("not-least", "%s: sessions%s, taken: b%d", c->who().c_str(),
                          s.c_str(), c->target + 1);
            }
        }
        held.push_back(c);
        sleep_us(5 * SEC);
    }
    (void) held_open;
    for (auto c : held)
    {
        c->tolerate = true;
        c->close();
    }
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
