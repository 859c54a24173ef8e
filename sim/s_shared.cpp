// Session sharing: C06 (indistinguishable from private) and C07 (keys, limits, expiry).
#include "zm.hpp"
using namespace sim;

namespace {
struct Cfg {
    bool keys, faults, named, ignore_auth, vhost, optimize, restart;
    int asi;            // searches with additional search info: 0 none, 1 some
    bool few;           // few distinct searches
    int smax, sttl, rmax, rttl, nusers, nops;
    int w[6];           // weights of the kinds of operations
};
}
static Cfg C;
static ZServer *srv;

static std::string pool_term(unsigned a, int user)
{
    static const long long hh[] = { 3, 0, 17, 120, 1 };
    long long h = C.few ? 17 - 14 * draw_a(ST_OP, a, 2) : hh[draw_a(ST_OP, a, 5)];
    return strf("h%lld_u%d_%u", h, user, draw_a(ST_OP, a, 2));
}
static std::string rand_asi(unsigned a)
{
    static const char *v[] = { "", "", "i1", "i2" };
    return C.asi ? v[draw_a(ST_OP, a, 4)] : "";
}
// an answer that session_shared may give instead of the target's
static bool excused(const MClient &c, const Resp &r)
{
    if (C.smax < 100 && r.ndiag && r.addinfo.find("all sessions in use") !=
        std::string::npos)
    {
        count("probe.all_sessions_in_use");
        return true;
    }
    return c.tolerate && r.ndiag;
}
static void client_ops(MClient &c, int user, int nops, unsigned opbase)
{
    unsigned a = c.actor;
    i64 idle = 0;
    int n_seen = c.n;
    for (int i = 0; i < nops && !c.dead; i++)
    {
        int tot = 0;
        for (int k = 0; k < 6; k++)
            tot += C.w[k];
        int pk = draw_a(ST_OP, a, tot), kc = 0;
        while (pk >= C.w[kc])
            pk -= C.w[kc++];
        static const unsigned first[] = { 0, 5, 9, 10, 11, 12 };
        unsigned kind = kc ? first[kc] : draw_a(ST_OP, a, 5);
        unsigned arg = draw_a(ST_OP, a, 4);
        std::string set = strf("s%u", draw_a(ST_OP, a, 3));
        bool batch = draw_a(ST_OP, a, 10) == 9;
        if (op_skipped(a, opbase + std::min(i, 11)))
            continue;
        Resp r;
        if (c.n != n_seen)
            idle = 0;
        n_seen = c.n;
        if (batch && !C.faults && C.smax >= 100 && K.pipe_cap >= 4096)
        {   // several requests at a time
            int nb = 2 + draw_a(ST_OP, a, 4);
            std::vector<std::shared_ptr<MClient>> subs;
            std::vector<std::function<void()>> fn;
            auto mux = std::make_shared<Mux>(&c);
            for (int b = 0; b < nb; b++)
            {
                auto s = std::make_shared<MClient>(c);
                subs.push_back(s);
                s->mux = mux;
                s->pfx += strf(".b%d.%d", i, b);
                if (s->max_call >= 0)
                    s->max_call *= nb + 1;
                if (!c.sets.count(set) || !c.sets[set].hits || draw_a(ST_OP, a, 2))
                {
                    std::string t = pool_term(a, user), db = strf("db%u", draw_a(ST_OP, a, 2));
                    SearchOpt so;
                    so.asi = rand_asi(a);
                    fn.push_back([=] { s->search(strf("q%d", b), "b1", db, t, so); });
                }
                else
                {
                    long long h = c.sets[set].hits, st = 1 + draw_a(ST_OP, a, (unsigned) std::min(h, 5LL));
                    long long n = std::min(1LL + draw_a(ST_OP, a, 4), h - st + 1);
                    const char *sy = rand_syntax(a), *es = draw_a(ST_OP, a, 2) ? "F" : "B";
                    fn.push_back([=] { s->present(set, st, n, sy, es); });
                }
            }
            parallel(a, fn);
            for (int b = 0; b < nb; b++)
            {
                std::string q = strf("q%d", b);
                if (subs[b]->sets.count(q))
                    c.sets[q] = subs[b]->sets[q];
            }
            continue;
        }
        if (kind <= 4)
        {
            std::string t = pool_term(a, user);
            SearchOpt so;
            so.set = set;
            std::string db = strf("db%u", arg % 2);
            so.dbs = { db };
            so.asi = rand_asi(a);
            std::string q = t, qt = t;
            if (kind == 4 && !c.sets.empty())
            {   // refers to an earlier set; its first term decides the hits
                const std::string &s0 = arg == 3 && c.sets.count(set) ? set :
                    c.sets.begin()->first;
                db = c.sets[s0].db;
                so.dbs = { db };
                q = "@and @set " + s0 + " " + t;
                t = c.sets[s0].term;
                count("probe.search_refers_to_set");
            }
            if (!c.go(c.b_search(c.ref(), q, so), Z_APDU_searchResponse, r))
                return;
            if (excused(c, r))
            {
                c.sets.erase(set);
                continue;
            }
            if (r.ndiag)
                violation("unexpected-diag", "%s: search %s: %s", c.who().c_str(),
                          q.c_str(), r.show().c_str());
            if (r.hits != term_hits(t) || !r.success)
                if (!(C.faults && r.hits == -1))
                    violation("wrong-hits", "%s: search %s: %s", c.who().c_str(),
                              q.c_str(), r.show().c_str());
            if (r.success && q == qt)
                c.check_asi(r, so.asi, t);
            if (r.hits < 0)
                c.sets.erase(set);
            else
                c.sets[set] = { "b1", db, t, r.hits, "" };
        }
        else if (kind <= 8)
        {
            if (c.sets.empty())
                continue;
            if (!c.sets.count(set))
                set = c.sets.begin()->first;
            MSet s = c.sets[set];
            if (!s.hits)
                continue;
            // few distinct windows, so that caches are hit
            static const long long ws[] = { 1, 1, 2, 5 }, wn[] = { 1, 3, 2, 7 };
            long long st = std::min(ws[arg], s.hits);
            long long n = std::min(wn[draw_a(ST_OP, a, 4)], s.hits - st + 1);
            const char *sy = rand_syntax(a);
            const char *es = draw_a(ST_OP, a, 2) ? "F" : "B";
            if (!c.go(c.b_present(c.ref(), set, st, n, sy, es),
                      Z_APDU_presentResponse, r))
                return;
            if (excused(c, r))
                continue;
            c.check_recs(r, s, st, n, sy, es);
        }
        else if (kind == 9)
        {
            if (!c.go(c.b_scan(c.ref(), "db0", "m", 3, 1), Z_APDU_scanResponse, r))
                return;
            if (excused(c, r))
                continue;
            if (r.terms.size() != 3 || r.terms[0].first != "m1" ||
                r.terms[2].first != "m3")
                violation("wrong-scan", "%s: %s", c.who().c_str(), r.show().c_str());
        }
        else if (kind == 10)
        {   // refused search, present of unknown set, out of range
            if (arg == 0 || (arg == 3 && C.w[3] > 1))
            {
                SearchOpt so;
                so.set = set;
                so.dbs = { "db0" };
                if (!c.go(c.b_search(c.ref(), "err107", so), Z_APDU_searchResponse, r))
                    return;
                c.sets.erase(set);
                if (!excused(c, r) && r.diag != 107)
                    violation("wrong-diag", "%s: want 107: %s", c.who().c_str(),
                              r.show().c_str());
            }
            else if (arg == 1)
            {
                if (!c.go(c.b_present(c.ref(), "nosuch", 1, 1),
                          Z_APDU_presentResponse, r))
                    return;
                if (r.diag != 30)
                    violation("wrong-diag", "%s: want 30: %s", c.who().c_str(),
                              r.show().c_str());
            }
            else if (!c.sets.empty())
            {
                MSet s = c.sets.begin()->second;
                if (!c.go(c.b_present(c.ref(), c.sets.begin()->first, s.hits + 1, 1),
                          Z_APDU_presentResponse, r))
                    return;
                if (!excused(c, r) && r.diag != 13)
                    violation("wrong-diag", "%s: want 13: %s", c.who().c_str(),
                              r.show().c_str());
            }
        }
        else if (kind == 11)
        {   // replace indicator off
            if (c.sets.empty())
                continue;
            SearchOpt so;
            so.set = c.sets.begin()->first;
            so.dbs = { "db0" };
            so.replace = false;
            if (!c.go(c.b_search(c.ref(), pool_term(a, user), so),
                      Z_APDU_searchResponse, r))
                return;
            if (r.diag != 21)
                violation("wrong-diag", "%s: want 21: %s", c.who().c_str(),
                          r.show().c_str());
        }
        else
        {
            static const i64 w[] = { 1, C.w[5] > 1 ? 3 : 7, C.w[5] > 1 ? 2 : 40,
                                    C.w[5] > 1 ? C.rttl : 130 };
            if (idle + w[arg] < 250)   // the frontend's timeout is 300 s
            {
                sleep_us(w[arg] * SEC);
                idle += w[arg];
                continue;
            }
            Resp q;
            if (!c.go(c.b_present(c.ref(), "nosuch", 1, 1), Z_APDU_presentResponse, q))
                return;
        }
    }
}
static void shared_run(bool keys)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer s("b1", 210, 1000);
    srv = &s;
    C.keys = keys;
    C.faults = !keys && chance(ST_KNOB, 1, 2);
    C.named = !chance(ST_KNOB, 1, 3);
    C.ignore_auth = keys && chance(ST_KNOB, 1, 4);
    C.optimize = !chance(ST_KNOB, 1, 5);
    C.restart = chance(ST_KNOB, 1, 3);
    static const int sm[] = { 100, 1, 2, 3 };
    C.smax = sm[draw(ST_KNOB, 4)];
    static const int st[] = { 90, 20, 5 };
    C.sttl = st[draw(ST_KNOB, 3)];
    static const int rm[] = { 10, 1, 2 };
    C.rmax = rm[draw(ST_KNOB, 3)];
    static const int rt[] = { 30, 1, 5 };
    C.rttl = rt[draw(ST_KNOB, 3)];
    C.nops = 8;
    static const int w0[] = { 5, 4, 1, 1, 1, 1 };
    bool swarm = chance(ST_KNOB, 1, 2);
    for (int k = 0; k < 6; k++)
        C.w[k] = swarm ? (int) draw(ST_KNOB, 5) + (k == 0) : w0[k];
    if (swarm && chance(ST_KNOB, 1, 2))
        C.nops = 25;
    if (!keys && chance(ST_KNOB, 1, 3))
    {   // several clients, few connections, sets that expire at once
        static const int wp[] = { 7, 6, 0, 4, 0, 4 };
        std::copy(wp, wp + 6, C.w);
        C.rttl = 4 + draw(ST_KNOB, 5);
        C.few = true;
        C.rmax = 2 + draw(ST_KNOB, 6);
        C.smax = 100;
        C.sttl = 90;
        C.named = true;
        C.nops = 25;
        C.faults = C.faults && draw(ST_KNOB, 4) == 0;
    }
    C.asi = chance(ST_KNOB, 1, 3);
    C.nusers = keys ? 1 + draw(ST_KNOB, 3) : 1;
    C.vhost = keys && chance(ST_KNOB, 1, 2);
    s.named = C.named;
    s.one_at_a_time = true;
    static const i64 dm[] = { 0, 5 * MS, 300 * MS, 2 * SEC };
    s.delay_max = dm[draw(ST_KNOB, 4)];
    static bool healed;
    healed = false;
    static unsigned fden;
    static const unsigned fd[] = { 8, 4, 15 };
    fden = fd[draw(ST_KNOB, 3)];
    if (C.faults)
        s.policy = [](BConn &c, BReq &r) {
            if (healed || !chance_a(ST_FAULT, c.actor, 1, fden))
                return B_OK;
            static const BAct k[] = { B_DIAG, B_CLOSE, B_RESET, B_NEGHITS, B_PARTIAL,
                B_DIAG, B_DELAY, B_CLOSE_APDU, B_SILENT, B_FAILQUIET };
            BAct a = k[draw_a(ST_FAULT, c.actor, 10)];
            if ((a == B_NEGHITS || a == B_FAILQUIET) && r.which != Z_APDU_searchRequest)
                a = B_DIAG;
            return a;
        };
    if (keys)
        s.on_req = [](BConn &c, BReq &r) {
            if (r.which == Z_APDU_initRequest)
            {
                if (C.ignore_auth && (!r.user.empty() || !r.pass.empty()))
                    violation("auth-sent", "user %s sent with ignore-auth",
                              r.user.c_str());
                // connections open for this user now and still so in a while
                std::set<int> ids;
                for (auto &p : srv->conns)
                    if (srv->conn_live(*p) && p->nreq && p->user == c.user)
                        ids.insert(p->id);
                if ((int) ids.size() > C.smax)
                {
                    std::string u = c.user;
                    at(now() + 4 * SEC, [ids, u] {
                        for (auto &p : srv->conns)
                            if (ids.count(p->id) && !srv->conn_live(*p))
                                return;
                        violation("session-max", "%zu connections for user '%s', "
                                  "session max %d", ids.size(), u.c_str(), C.smax);
                    });
                }
                return;
            }
            size_t p = r.term.find("_u");
            if (!C.ignore_auth && p != std::string::npos)
            {
                std::string u = "u" + r.term.substr(p + 2, r.term.find('_', p + 2) - p - 2);
                if (u != c.user)
                    violation("wrong-key", "request of %s (%s) on the connection of %s",
                              u.c_str(), r.term.c_str(), c.user.c_str());
            }
        };
    std_backend(s);
    int nc = 1 + draw(ST_KNOB, 6);
    int threads = chance(ST_KNOB, 1, 2) ? nc + 1 : 1 + draw(ST_KNOB, 4);
    std::string fsec, pt;
    if (chance(ST_KNOB, 1, 4))
        pt = passthru(&fsec);
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        frontend(9000, "", threads) + pt + strf(
        "<filter type=\"session_shared\"><resultset ttl=\"%d\" max=\"%d\" "
        "optimizesearch=\"%s\" restart=\"%s\"/><session ttl=\"%d\" max=\"%d\"/>%s"
        "</filter>", C.rttl, C.rmax, C.optimize ? "true" : "false",
        C.restart ? "true" : "false", C.sttl, C.smax,
        C.ignore_auth ? "<init ignore-auth=\"true\"/>" : "") +
        zclient() + "</route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    // the proxy's view of an idle connection's end
    static bool stop_monitor;
    stop_monitor = false;
    i64 limit = (2 * C.sttl + 3 + (C.faults ? 32 : 0)) * SEC + margin() + s.delay_max;
    int mon = spawn("monitor", [=] {
        while (!stop_monitor)
        {
            sleep_us(3 * SEC);
            for (auto &p : srv->conns)
                if (srv->conn_live(*p) && p->nreq && now() - p->last_used > limit)
                    violation("not-expired", "backend connection idle for %.0f s, "
                              "session ttl %d", (now() - p->last_used) / 1e6, C.sttl);
        }
    }, 111);
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 3);
            for (int k = 0; k < rounds; k++)
            {
                int user = draw_a(ST_OP, a, C.nusers);
                MClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                c.timeout = 1500 * SEC;
                c.tolerate = C.faults;
                if (!C.faults && threads > nc)
                    // nobody holds a backend for longer than a request takes
                    c.max_call = margin() + (3 + 3 * nc) * (s.delay_max + 10 * K.lat_max + 100 * MS);
                if (op_skipped(a, 13))
                    continue;
                c.must_connect();
                std::string u = keys ? strf("u%d", user) : "";
                if (!c.init(u, keys ? "p" : "", true, C.vhost ? "b1:210" : ""))
                    continue;
                client_ops(c, user, 1 + draw_a(ST_OP, a, C.nops), 0);
                if (!c.dead)
                {
                    if (draw_a(ST_OP, a, 3) == 1)
                        c.quiet(SEC);
                    c.bye();
                }
                sleep_us(draw_a(ST_OP, a, 3) * SEC);
            }
        });
    if (C.faults)
    {   // the target restarts now and then
        int n = draw(ST_FAULT, 3);
        for (int i = 0; i < n; i++)
        {
            sleep_us((1 + draw(ST_FAULT, 20)) * SEC);
            count("fault.target_restart");
            s.stop();
            s.drop_all();
            sleep_us(draw(ST_FAULT, 5) * SEC);
            s.start();
        }
    }
    cl.wait();
    healed = true;
    // dead connections are found out one by one; then all is well again
    for (int k = 0;; k++)
    {
        MClient c(110);
        c.pfx = strf("heal%d", k);
        c.timeout = 300 * SEC;
        c.tolerate = true;
        c.must_connect();
        bool ok = c.init(keys ? "u0" : "", keys ? "p" : "", true, C.vhost ? "b1:210" : "") &&
            c.search("s", "b1", "db0", "h17_u0_heal") && c.present("s", 1, 17, "xml", "F");
        c.bye();
        if (ok)
            break;
        // the sessions may be taken by sets of other databases until they expire
        if (C.smax < 100)
            sleep_us(5 * SEC);
        else if (!C.faults)
            k = 100;
        if (k > 60)
            violation("not-serving", "healthy target, attempt %d fails", k);
    }
    if (!wait_fds(fds0, limit + 5 * SEC))
        violation("not-expired", "%d descriptors %.0f s after the last use, %d at "
                  "start: %s", open_fds(), limit / 1e6, fds0, list_fds().c_str());
    stop_monitor = true;
    join(mon);
}
SCENARIO(shared)
{
    shared_run(false);
}
SCENARIO(sharedkeys)
{
    shared_run(true);
}
