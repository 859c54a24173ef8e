// Several targets behind one session: C08 (merge, windows) and C09 (failures, scan).
#include "zm.hpp"
#include <algorithm>
using namespace sim;

namespace {
struct Part { int srv; long long count; };
struct MulSet { std::vector<Part> parts; std::string term, db; long long total; };
}
static const int NT = 4;
static ZServer *T[NT];
static bool M_serve, M_hideun, M_hideerr, M_faults;
static std::map<std::string, std::map<int, BAct>> acts;   // request -> target -> done

// the documented order: one of each target in turn, or one target after the other
static std::vector<std::pair<int, long long>> merged(const MulSet &s)
{
    std::vector<std::pair<int, long long>> v;
    if (M_serve)
    {
        for (size_t i = 0; i < s.parts.size(); i++)
            for (long long k = 1; k <= s.parts[i].count; k++)
                v.push_back({ (int) i, k });
    }
    else
    {
        for (long long k = 1; (long long) v.size() < s.total; k++)
            for (size_t i = 0; i < s.parts.size(); i++)
                if (k <= s.parts[i].count)
                    v.push_back({ (int) i, k });
    }
    return v;
}
static long long part_hits(const std::string &term, int i)
{   // m3_0_17_2_...
    const char *p = term.c_str() + 1;
    while (i-- > 0)
    {
        p = strchr(p, '_');
        if (!p)
            return 0;
        p++;
    }
    return atoll(p);
}
static bool bad_act(BAct a)
{
    return a != B_OK && a != B_DELAY && a != B_FEWER;
}
namespace {
struct MulClient {
    MClient c;
    std::vector<int> tg;             // targets of the session, in order
    std::vector<std::string> vh;
    std::set<int> gone;              // known to have been lost
    std::map<std::string, MulSet> sets;
    int k = 0;
    explicit MulClient(unsigned a) : c(a) {}
    // outcome of the last request at the session's targets
    void outcome(std::set<int> &dead, std::set<int> &diag, std::set<int> &fewer,
                 const std::set<int> &asked, const std::string &key)
    {
        for (int t : asked)
        {
            auto &m = acts[key];
            if (gone.count(t) || !m.count(t))
                dead.insert(t);
            else if (m[t] == B_DIAG)
                diag.insert(t);
            else if (m[t] == B_FEWER)
                fewer.insert(t);
            else if (bad_act(m[t]))
                dead.insert(t);
        }
        for (int t : dead)
            if (!gone.count(t) && !M_faults)
                violation("not-forwarded", "%s: target %d got nothing",
                          c.who().c_str(), t);
    }
    // a response, or an acceptable end of the session
    bool go(const std::string &b, int which, Resp &r)
    {
        c.tolerate = M_faults;
        return c.go(b, which, r);
    }
    void ended(bool may, const std::set<int> &dead, const std::set<int> &diag)
    {
        if (!may)
            violation("closed", "%s: session closed; %zu targets failed, %zu gave "
                      "diagnostics", c.who().c_str(), dead.size(), diag.size());
        count("probe.multi_closed");
    }
    std::set<int> all() { return std::set<int>(tg.begin(), tg.end()); }
    bool init()
    {
        std::string vhost;
        for (auto &v : vh)
            vhost += (vhost.empty() ? "" : "+") + v;
        std::string key = strf("%s-u", c.pfx.c_str());
        acts.erase(key);
        Resp r;
        bool ok = go(ZClient::b_init(c.ref(), key, "p", true, 3, vhost),
                     Z_APDU_initResponse, r);
        std::set<int> dead, diag, fewer, good;
        outcome(dead, diag, fewer, all(), key);
        dead.insert(diag.begin(), diag.end());
        for (int t : all())
            if (!dead.count(t))
                good.insert(t);
        if (!ok)
        {
            ended(!dead.empty() && (!M_hideun || good.empty()), dead, diag);
            return false;
        }
        bool want = dead.empty() || (M_hideun && !good.empty());
        if (r.init_ok != want)
            violation("init-result", "%s: %zu of %zu targets good: %s",
                      c.who().c_str(), good.size(), all().size(), r.show().c_str());
        if (!want)
        {
            count("probe.multi_init_refused");
            c.tolerate = true;
            Resp e = c.recv();
            if (!e.closed() && !(e.ok() && e.which == Z_APDU_close))
                violation("not-closed", "%s: session goes on after a failed init: %s",
                          c.who().c_str(), e.show().c_str());
            c.close();
            return false;
        }
        if (r.opts.find("search") == std::string::npos ||
            r.opts.find("present") == std::string::npos ||
            r.opts.find("namedResultSets") == std::string::npos)
            violation("init-options", "%s: %s", c.who().c_str(), r.opts.c_str());
        if (!dead.empty())
            count("probe.multi_init_partial");
        gone = dead;
        return true;
    }
    void search(const std::string &set)
    {
        unsigned a = c.actor;
        static const int hh[] = { 3, 0, 1, 2, 5, 11, 40, 300 };
        MulSet m;
        m.term = "m";
        for (int i = 0; i < NT; i++)
            m.term += strf("%d_", hh[draw_a(ST_OP, a, 8)]);
        m.term += strf("c%u_%d", a, k++);
        m.db = strf("db%u", draw_a(ST_OP, a, 2));
        SearchOpt so;
        so.set = set;
        so.dbs = { m.db };
        if (draw_a(ST_OP, a, 4) == 3)
        {   // records with the search response
            static const int sm[] = { 20, 0, 0 }, la[] = { 21, 1000, 10 };
            int x = draw_a(ST_OP, a, 3);
            so.small = sm[x];
            so.large = la[x];
            so.medium = x ? 4 : 0;
        }
        so.syntax = rand_syntax(a);
        std::set<int> dead, diag, fewer;
        Resp r;
        bool ok = go(ZClient::b_search(c.ref(), m.term, so), Z_APDU_searchResponse, r);
        outcome(dead, diag, fewer, all(), c.last_ref);
        std::set<int> newly;
        for (int t : dead)
            if (!gone.count(t))
                newly.insert(t);
        m.total = 0;
        int good = 0;
        for (size_t i = 0; i < tg.size(); i++)
            if (!dead.count(tg[i]) && !diag.count(tg[i]))
            {
                m.parts.push_back({ (int) i, part_hits(m.term, tg[i]) });
                m.total += m.parts.back().count;
                good++;
            }
        if (!ok)
        {   // the piggybacked present may have failed
            bool pb = so.small > 0 || so.medium > 0;
            ended((!dead.empty() && (!M_hideun || !good)) || (pb && M_faults), dead,
                  diag);
            return;
        }
        sets.erase(set);
        gone.insert(newly.begin(), newly.end());
        if (r.ndiag)
        {
            count("probe.multi_search_diag");
            if (diag.empty() && newly.empty() && !(so.small > 0 || so.medium > 0))
                violation("unexpected-diag", "%s: %s", c.who().c_str(), r.show().c_str());
            if (M_hideerr && M_hideun && good && !(so.small > 0 || so.medium > 0))
                violation("not-hidden", "%s: %s", c.who().c_str(), r.show().c_str());
            if (!M_faults)
                violation("unexpected-diag", "%s: %s", c.who().c_str(), r.show().c_str());
            // what the set is now is not defined
            return;
        }
        if (!dead.empty() && !M_hideun)
            violation("silent-short", "%s: %zu targets failed: %s", c.who().c_str(),
                      dead.size(), r.show().c_str());
        if (!diag.empty() && !M_hideerr)
            violation("silent-short", "%s: %zu targets gave a diagnostic: %s",
                      c.who().c_str(), diag.size(), r.show().c_str());
        if (!good)
            violation("silent-short", "%s: no target is good: %s", c.who().c_str(),
                      r.show().c_str());
        if (r.hits != m.total || !r.success)
            violation("wrong-hits", "%s: want %lld: %s", c.who().c_str(), m.total,
                      r.show().c_str());
        sets[set] = m;
        long long n = 0;
        if (m.total < so.small)
            n = m.total;
        else if (m.total <= so.large)
            n = std::min((long long) so.medium, m.total);
        if (m.total == so.small || m.total == so.large)
            n = std::min(M_faults ? m.total : (long long) r.recs.size(), m.total); // boundaries: either way
        if (!M_faults || n == 0 || !r.recs.empty())
            recs(r, m, 1, n, so.syntax, "", {}, M_faults, M_faults);
    }
    void recs(const Resp &r, const MulSet &m, long long start, long long n,
              const std::string &syntax, const std::string &esn,
              const std::set<int> &bad, bool prefix, bool subseq = false)
    {
        auto all = merged(m);
        std::vector<std::pair<int, long long>> v;
        for (long long i = 0; i < n; i++)
        {
            auto &e = all[start - 1 + i];
            if (!bad.count(tg[m.parts[e.first].srv]))
                v.push_back(e);
        }
        if (r.returned != (int) r.recs.size() || r.recs.size() > v.size() ||
            (!prefix && r.recs.size() != v.size()) || (prefix && r.recs.empty() && v.size()))
            violation("record-count", "%s: want %zu records, got %zu (says %d): %s",
                      c.who().c_str(), v.size(), r.recs.size(), r.returned,
                      r.show().c_str());
        for (size_t i = 0, j = 0; i < r.recs.size(); i++, j++)
        {   // of the present within a search it is not known which target failed
            auto text = [&](size_t x) {
                return rec_text(T[tg[m.parts[v[x].first].srv]]->host, m.db, m.term,
                                v[x].second, esn, syntax);
            };
            while (subseq && j + 1 < v.size() && r.recs[i] != text(j))
                j++;
            const Part &p = m.parts[v[j].first];
            std::string want = text(j);
            if (r.recs[i] != want)
                violation("wrong-record", "%s: %lld+%lld: record %zu: want %s got %s",
                          c.who().c_str(), start, n, i, want.c_str(), r.recs[i].c_str());
            if (r.rec_db[i] != vh[p.srv])
                violation("mislabelled", "%s: %lld+%lld: record %zu: want %s got %s",
                          c.who().c_str(), start, n, i, vh[p.srv].c_str(),
                          r.rec_db[i].c_str());
        }
        if (bad.empty() && n && !subseq && r.next != start + (int) r.recs.size() && r.which ==
            Z_APDU_presentResponse && r.next)
            violation("next-position", "%s: %lld+%lld: %s", c.who().c_str(), start, n,
                      r.show().c_str());
    }
    void present(const std::string &set)
    {
        unsigned a = c.actor;
        MulSet m = sets[set];
        long long start, n;
        if (m.total == 0)
        {
            start = 1;
            n = 1;
        }
        else
        {
            start = 1 + draw_a(ST_OP, a, (unsigned) m.total);
            static const int nn[] = { 1, 2, 5, 9, 30, 1000 };
            n = std::min((long long) nn[draw_a(ST_OP, a, 6)], m.total - start + 1);
        }
        bool range = true;
        switch (draw_a(ST_OP, a, 12))
        {
        case 9: start = m.total + 1; n = 1; break;
        case 10: n = m.total - start + 2; break;
        case 11:
        {
            static const long long hs[] = { 0, -1, 4294967297LL, 1, 1, 1LL << 62 };
            static const long long hn[] = { 1, 1, 1, 4294967297LL, -1, 1LL << 62 };
            int x = draw_a(ST_OP, a, 6);
            start = hs[x];
            n = hn[x];
            break;
        }
        default: range = m.total == 0;
        }
        std::string sy = rand_syntax(a), es = draw_a(ST_OP, a, 2) ? "F" : "B";
        Resp r;
        bool ok = go(ZClient::b_present(c.ref(), set, start, n, sy, es),
                     Z_APDU_presentResponse, r);
        if (range)
        {
            if (!ok || r.diag != 13)
                violation("out-of-range", "%s: %lld+%lld of %lld: %s", c.who().c_str(),
                          start, n, m.total, r.show().c_str());
            return;
        }
        auto all = merged(m);
        std::set<int> asked, dead, diag, fewer;
        for (long long i = 0; i < n; i++)
            asked.insert(tg[m.parts[all[start - 1 + i].first].srv]);
        outcome(dead, diag, fewer, asked, c.last_ref);
        std::set<int> bad = dead;
        bad.insert(diag.begin(), diag.end());
        bool good = bad.size() < asked.size();
        if (!ok)
        {
            ended(!dead.empty() && (!M_hideerr || !good), dead, diag);
            return;
        }
        gone.insert(dead.begin(), dead.end());
        if (r.ndiag)
        {
            count("probe.multi_present_diag");
            if (bad.empty())
                violation("unexpected-diag", "%s: %s", c.who().c_str(), r.show().c_str());
            if (good && M_hideerr)
                violation("not-hidden", "%s: %s", c.who().c_str(), r.show().c_str());
            return;
        }
        if (!bad.empty() && (!M_hideerr || !good))
            violation("silent-short", "%s: %zu of %zu targets failed: %s",
                      c.who().c_str(), bad.size(), asked.size(), r.show().c_str());
        recs(r, m, start, n, sy, es, bad, !fewer.empty());
    }
    void scan()
    {
        unsigned a = c.actor;
        static const int nn[] = { 5, 1, 3, 10, 40 };
        int n = nn[draw_a(ST_OP, a, 5)];
        int pos = 1 + draw_a(ST_OP, a, n);
        std::string term = strf("t%02u", draw_a(ST_OP, a, 64));
        bool has = draw_a(ST_OP, a, 6) != 5;
        int odd = draw_a(ST_OP, a, 10);
        if (odd == 8)
            pos = n + 1;
        if (!has)
            pos = 1;
        Resp r;
        std::set<int> dead, diag, fewer;
        bool ok = go(ZClient::b_scan(c.ref(), "db", term, n, pos, has),
                     Z_APDU_scanResponse, r);
        outcome(dead, diag, fewer, all(), c.last_ref);
        std::set<int> bad = dead, newly;
        for (int t : dead)
            if (!gone.count(t))
                newly.insert(t);
        if (!ok)
        {
            ended(!dead.empty() && (!M_hideun || bad.size() + diag.size() == all().size()),
                  dead, diag);
            return;
        }
        gone.insert(newly.begin(), newly.end());
        if (r.ndiag)
        {
            if (diag.empty() || (M_hideerr && diag.size() + bad.size() < all().size()))
                violation("unexpected-diag", "%s: %s", c.who().c_str(), r.show().c_str());
            return;
        }
        bad.insert(diag.begin(), diag.end());
        if ((!dead.empty() && !M_hideun) || (!diag.empty() && !M_hideerr) ||
            bad.size() == all().size())
            violation("silent-short", "%s: %zu targets failed: %s", c.who().c_str(),
                      bad.size(), r.show().c_str());
        // union of the targets' lists
        std::map<std::string, long long> u;
        for (int t : tg)
            if (!bad.count(t))
                for (auto &s : T[t]->scan_terms)
                    u[s] += scan_count(T[t]->host, s);
        std::vector<std::pair<std::string, long long>> v(u.begin(), u.end()), want;
        long long ix = std::lower_bound(v.begin(), v.end(),
            std::make_pair(term, -1LL)) - v.begin();
        long long from = std::max(0LL, ix - (pos - 1));
        for (long long i = from; i < (long long) v.size() && (int) want.size() < n; i++)
            want.push_back(v[i]);
        if (r.terms != want)
        {
            std::string s1, s2;
            for (auto &x : want) s1 += strf(" %s=%lld", x.first.c_str(), x.second);
            for (auto &x : r.terms) s2 += strf(" %s=%lld", x.first.c_str(), x.second);
            violation("wrong-scan", "%s: scan %s %d at %d: want%s got%s",
                      c.who().c_str(), term.c_str(), n, pos, s1.c_str(), s2.c_str());
        }
        if (r.scan_pos >= 0 && !want.empty() && r.scan_pos != ix - from + 1)
            violation("scan-position", "%s: scan %s %d at %d: says %d, is %lld",
                      c.who().c_str(), term.c_str(), n, pos, r.scan_pos, ix - from + 1);
    }
    void odd_scan()
    {   // numbers nobody should believe
        unsigned a = c.actor;
        static const int nn[] = { -1, 0, 1000000000, 5, 2, 3 };
        static const int pp[] = { 1, 1, 1, 1000000, -5, 0 };
        int x = draw_a(ST_OP, a, 6);
        Resp r;
        std::string t = strf("t%02u", draw_a(ST_OP, a, 64));
        c.tolerate = true;
        if (!c.go(ZClient::b_scan(c.ref(), "db", t, nn[x], pp[x]), Z_APDU_scanResponse, r))
            return;
        if ((int) r.terms.size() > std::max(0, nn[x]))
            violation("scan-count", "%s: %zu terms for %d", c.who().c_str(),
                      r.terms.size(), nn[x]);
    }
};
}
static void multi_run(bool faults)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    M_faults = faults;
    M_serve = chance(ST_KNOB, 1, 3);
    M_hideun = faults && chance(ST_KNOB, 1, 2);
    M_hideerr = faults && chance(ST_KNOB, 1, 2);
    int nt = 2 + draw(ST_KNOB, NT - 1);
    static const i64 dm[] = { 0, 20 * MS, 2 * SEC };
    i64 dmax = dm[draw(ST_KNOB, 3)];
    static unsigned fden;
    static const unsigned fd[] = { 10, 5, 25 };
    fden = fd[draw(ST_KNOB, 3)];
    static bool healed;
    healed = false;
    static int skill;     // which kinds of faults
    skill = faults ? draw(ST_KNOB, 3) : 0;
    bool down[NT];
    for (int i = 0; i < nt; i++)
    {
        T[i] = new ZServer(strf("b%d", i + 1), 210, 1000 + 500 * i);
        ZServer &s = *T[i];
        s.hits_fn = [i](const BReq &r) { return part_hits(r.term, i); };
        s.delay_max = dmax;
        std::vector<std::string> terms;
        int every = 1 + draw(ST_KNOB, 4);
        for (int k = 0; k < 60; k++)
            if (draw(ST_KNOB, every) == 0)
                terms.push_back(strf("t%02d", k));
        s.policy = [i](BConn &c, BReq &r) {
            BAct a = B_OK;
            if (M_faults && !healed && chance_a(ST_FAULT, c.actor, 1, fden))
            {
                static const BAct k[] = { B_DIAG, B_CLOSE, B_RESET, B_SILENT,
                    B_CLOSE_APDU, B_PARTIAL, B_WRONG_APDU, B_FEWER, B_DELAY };
                if (skill == 1)
                    a = B_DIAG;
                else if (skill == 2)
                    a = draw_a(ST_FAULT, c.actor, 2) ? B_FEWER : B_CLOSE;
                else
                    a = k[draw_a(ST_FAULT, c.actor, 9)];
                if (a == B_FEWER && r.which != Z_APDU_presentRequest)
                    a = B_DIAG;
                if (a == B_DIAG && r.which == Z_APDU_initRequest)
                    a = B_CLOSE;
                if (a == B_DELAY && r.which == Z_APDU_initRequest)
                    a = B_OK;       // more than the connect timeout, maybe
            }
            if (r.which == Z_APDU_initRequest)
            {
                if (c.srv->init_fail)
                    a = B_DIAG;
                acts[r.user][i] = a;
            }
            else
                acts[r.refid][i] = a;
            return a;
        };
        bool up = !(faults && chance(ST_FAULT, 1, 10));
        std_backend(s);
        s.scan_terms = terms;
        down[i] = !up;
        if (!up)
        {
            s.stop();
            count("fault.target_down");
        }
        else if (faults && chance(ST_FAULT, 1, 10))
        {
            s.init_fail = true;
            count("fault.target_rejects");
        }
    }
    int nc = 1 + draw(ST_KNOB, 4);
    std::string fsec, pt;
    if (!faults && chance(ST_KNOB, 1, 4))
        pt = passthru(&fsec);   // (present_chunk asks again for what is missing)
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        frontend(9000, rand_threads()) + pt + "<filter type=\"multi\">" +
        (chance(ST_KNOB, 1, 2) ? "<target route=\"other\">b2*</target>" : "") +
        (M_hideun ? "<hideunavailable/>" : "") + (M_hideerr ? "<hideerrors/>" : "") +
        (M_serve ? "<mergetype>serveorder</mergetype>" : "") + "</filter>" +
        zclient() + "</route><route id=\"other\">" + zclient() + "</route></routes>"));
    wait_listen(9000);
    thread_faults();
    int fds0 = idle_fds();
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 2 + faults * 2);
            for (int k = 0; k < rounds; k++)
            {
                MulClient m(a);
                m.c.pfx = strf("c%u.%d", a, k);
                m.c.max_call = faults ? 60 * SEC + margin() + 4 * dmax : -1;
                // some of the targets in some order
                std::vector<int> o;
                for (int j = 0; j < nt; j++)
                    o.insert(o.begin() + draw_a(ST_OP, a, (unsigned) o.size() + 1), j);
                int n = nt - draw_a(ST_OP, a, (unsigned) nt);
                for (int j = 0; j < n; j++)
                {
                    m.tg.push_back(o[j]);
                    m.vh.push_back(T[o[j]]->host + ":210");
                }
                if (!faults && draw_a(ST_OP, a, 8) == 7)
                {   // one of them twice
                    m.tg.push_back(o[0]);
                    m.vh.push_back(T[o[0]]->host + ":210");
                }
                int nops = 2 + draw_a(ST_OP, a, 10);
                if (op_skipped(a, 13))
                    continue;
                m.c.must_connect();
                if (!m.init())
                    continue;
                for (int j = 0; j < nops && !m.c.dead; j++)
                {
                    unsigned kind = draw_a(ST_OP, a, 12);
                    std::string set = strf("s%u", draw_a(ST_OP, a, 2));
                    if (op_skipped(a, j))
                        continue;
                    if (kind == 0 || (kind < 9 && m.sets.empty()))
                        m.search(set);
                    else if (kind < 8)
                        m.present(m.sets.count(set) ? set : m.sets.begin()->first);
                    else if (kind == 8)
                    {
                        Resp r;
                        if (!m.go(ZClient::b_present(m.c.ref(), "nosuch", 1, 1),
                                  Z_APDU_presentResponse, r))
                            violation("closed", "%s", m.c.who().c_str());
                        if (r.diag != 30)
                            violation("wrong-diag", "%s: want 30: %s",
                                      m.c.who().c_str(), r.show().c_str());
                    }
                    else if (kind == 9 && !faults && K.pipe_cap >= 4096)
                    {   // several requests at a time
                        int nb = 2 + draw_a(ST_OP, a, 4);
                        std::vector<std::shared_ptr<MulClient>> subs;
                        std::vector<std::function<void()>> fn;
                        auto mux = std::make_shared<Mux>(&m.c);
                        for (int b = 0; b < nb; b++)
                        {
                            auto s = std::make_shared<MulClient>(m);
                            subs.push_back(s);
                            s->c.mux = mux;
                            s->c.pfx += strf(".b%d.%d", m.k, b);
                            s->k = m.k + 100 * (b + 1);
                            unsigned w = draw_a(ST_OP, a, 4);
                            if (w == 3)
                                fn.push_back([s] { s->scan(); });
                            else if (w == 2 || !m.sets.count(set))
                                fn.push_back([s, b] { s->search(strf("q%d", b)); });
                            else
                            {
                                std::string ps = set;
                                fn.push_back([s, ps] { s->present(ps); });
                            }
                        }
                        parallel(a, fn);
                        m.k += 1000;
                        // searches that failed or went on to other sets only
                        for (int b = 0; b < nb; b++)
                        {
                            std::string q = strf("q%d", b);
                            if (subs[b]->sets.count(q) && !subs[b]->c.dead)
                                m.sets[q] = subs[b]->sets[q];
                        }
                    }
                    else if (kind < 11)
                        m.scan();
                    else if (draw_a(ST_OP, a, 2))
                        m.odd_scan();
                }
                if (!m.c.dead)
                {
                    m.c.tolerate = faults;
                    m.c.quiet(draw_a(ST_OP, a, 3) * SEC);
                    m.c.bye();
                }
            }
        });
    cl.wait();
    healed = true;
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
    for (int i = 0; i < nt; i++)
    {
        T[i]->init_fail = false;
        if (down[i])
            T[i]->start();
    }
    MulClient m(110);
    M_faults = false;
    for (int j = 0; j < nt; j++)
    {
        m.tg.push_back(j);
        m.vh.push_back(T[j]->host + ":210");
    }
    m.c.must_connect();
    m.init();
    m.search("s");
    m.present("s");
    m.c.bye();
}
SCENARIO(multimerge)
{
    multi_run(false);
}
SCENARIO(multifail)
{
    multi_run(true);
}
