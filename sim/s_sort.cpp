// C16: sorting of result sets.
#include "zm.hpp"
#include <algorithm>
using namespace sim;

static std::map<std::string, int> faulted;      // term -> worst thing that happened
static std::set<std::string> closers;           // a target's own Close
static int keymod;
static unsigned hash32(const std::string &s)
{
    unsigned h = 2166136261u;
    for (unsigned char c : s)
        h = (h ^ c) * 16777619u;
    return h ^ (h >> 13);
}
// the key of a record; "" : none
static std::string key_of(const std::string &term, long long pos, const std::string &esn)
{
    unsigned h = hash32(strf("%s/%lld/%s", term.c_str(), pos, esn.c_str())) % keymod;
    if (h % 11 == 10)
        return "";
    return h % 5 == 4 ? strf("K %u", h) : strf("%c%u", 'a' + h % 7, h);
}
static int form;       // how the key is written
static std::string srec(const std::string &term, long long pos, const std::string &esn,
                        const std::string &syntax)
{
    std::string k = !strcasecmp(syntax.c_str(), "usmarc") ? "" : key_of(term, pos, esn);
    std::string id = strf("q=\"%s\" n=\"%lld\" e=\"%s\"", term.c_str(), pos, esn.c_str());
    switch (form)
    {
    case 0:
        return "<r " + id + (k.empty() ? "" : " k=\"" + k + "\"") + "/>";
    case 1:
        return "<r " + id + "><k/>" + (k.empty() ? "" : "<k>" + k + "</k><k>zz</k>") + "</r>";
    default:
        return "<x:r xmlns:x=\"http://x/\" " + id + "><k>00</k>" +
            (k.empty() ? "" : "<x:k>" + k + "</x:k>") + "</x:r>";
    }
}
namespace {
struct Lst { std::string syntax, esn; std::vector<long long> pos; };
struct SSet { std::string term; long long hits; std::vector<Lst> lists; };
}
static long long pos_of(const std::string &rec)
{
    size_t p = rec.find(" n=\"");
    return p == std::string::npos ? -1 : atoll(rec.c_str() + p + 4);
}
SCENARIO(sortf)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    static const int km[] = { 50, 3, 1000, 1 };
    keymod = km[draw(ST_KNOB, 4)];
    form = draw(ST_KNOB, 3);
    static const int pf[] = { 5, 0, 20, 1, 12 };
    int prefetch = pf[draw(ST_KNOB, 5)];
    bool pf_given = !(prefetch == 20 && draw(ST_KNOB, 2));
    int order = draw(ST_KNOB, 3);
    bool asc = order != 2;
    static unsigned fden;
    static const unsigned fd[] = { 0, 9, 3, 0 };
    fden = fd[draw(ST_KNOB, 4)];
    static int killers;
    killers = draw(ST_KNOB, 2);
    static int maxper;
    static const int mp[] = { 1000000, 4, 1, 7 };
    maxper = srv.max_recs_per_present = mp[draw(ST_KNOB, 4)];
    srv.rec_fn = [](const BReq &r, const BConn::Set &s, long long pos) {
        return srec(s.term, pos, r.esn, r.syntax);
    };
    srv.policy = [](BConn &c, BReq &r) {
        if (!fden || !chance_a(ST_FAULT, c.actor, 1, fden) || r.which == Z_APDU_initRequest)
            return B_OK;
        static const BAct v[] = { B_FEWER, B_NORECS, B_DIAG, B_SURR, B_MORE, B_NRET_LIE,
            B_CLOSE, B_RESET, B_CLOSE_APDU, B_WRONG_APDU, B_SILENT, B_PARTIAL, B_GARBAGE };
        BAct a = v[draw_a(ST_FAULT, c.actor, killers ? 13 : 6)];
        if (a == B_CLOSE_APDU || a == B_WRONG_APDU)
            closers.insert(r.term);
        faulted[r.term] = std::max(faulted[r.term], a >= B_CLOSE && a != B_SURR &&
            a != B_MORE && a != B_NRET_LIE && a != B_NORECS && a != B_FEWER && a != B_DIAG
            ? 2 : 1);
        return a;
    };
    bool pipey = chance(ST_KNOB, 1, 3);
    srv.delay_max = pipey && !fden ? (i64) draw(ST_KNOB, 3) * 50 * MS : 0;
    std_backend(srv);
    static const char *xp[] = { "/r/@k", "/r/k", "/x:r/x:k" };
    std::string conf = strf("<sort xpath=\"%s\"", xp[form]);
    if (form == 2) conf += " namespaces=\"y=http://y/ x=http://x/\"";
    if (pf_given) conf += strf(" prefetch=\"%d\"", prefetch);
    if (order) conf += asc ? " ascending=\"true\"" : " ascending=\"false\"";
    int nc = 1 + draw(ST_KNOB, 4);
    start_proxy(mp_config("<routes><route id=\"start\">" +
        frontend(9000, rand_threads()) + "<filter type=\"sort\">" + conf +
        "/></filter>" + zclient() + "</route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            MClient c(a);
            std::map<std::string, SSet> sets;
            int nops = 2 + draw_a(ST_OP, a, 10);
            bool shaky = false;
            auto start = [&] {
                c.close();
                c.must_connect();
                c.init();
                sets.clear();
                shaky = false;
            };
            auto key = [&](const SSet &s, long long p, const std::string &esn,
                           const std::string &syn) {
                return syn == "usmarc" ? std::string() : key_of(s.term, p, esn);
            };
            // the list made when the first n records are fetched
            auto mklist = [&](SSet &s, long long n, const std::string &syn,
                              const std::string &esn) -> Lst & {
                for (auto &l : s.lists)
                    if (l.syntax == syn && l.esn == esn)
                        return l;
                Lst l;
                l.syntax = syn;
                l.esn = esn;
                long long m = std::max(n, std::min((long long) prefetch, s.hits));
                for (long long p = 1; p <= m; p++)
                    l.pos.push_back(p);
                std::stable_sort(l.pos.begin(), l.pos.end(), [&](long long x, long long y) {
                    std::string kx = key(s, x, esn, syn), ky = key(s, y, esn, syn);
                    return asc ? kx < ky : ky < kx;
                });
                s.lists.push_back(l);
                return s.lists.back();
            };
            auto check = [&](const Resp &r, const SSet &s, std::vector<long long> want,
                             const std::string &syn, const std::string &esn, bool sorted,
                             const char *what) {
                if (r.recs.size() != want.size() || r.returned != (int) want.size() || r.ndiag)
                    violation("record-count", "%s: %s: want %zu: %s", c.who().c_str(), what,
                              want.size(), r.show().c_str());
                for (size_t j = 0; j < want.size(); j++)
                {   // the order within equal keys is the filter's own business
                    long long p = pos_of(r.recs[j]);
                    if (r.recs[j] != srec(s.term, p, esn, syn))
                        violation("wrong-record", "%s: %s: %s", c.who().c_str(), what,
                                  r.recs[j].c_str());
                    if (sorted ? key(s, p, esn, syn) != key(s, want[j], esn, syn) :
                        p != want[j])
                        violation("wrong-order", "%s: %s: record %zu: is %lld, want %lld",
                                  c.who().c_str(), what, j + 1, p, want[j]);
                }
            };
            // which record was seen at which position of a sorted window
            std::map<std::string, std::map<long long, long long>> seen;
            auto once = [&](const Resp &r, const SSet &s, const Lst &l, long long st) {
                auto &m = seen[s.term + "/" + l.syntax + "/" + l.esn];
                for (size_t j = 0; j < r.recs.size(); j++)
                {
                    long long p = pos_of(r.recs[j]);
                    if (p < 1 || p > (long long) l.pos.size())
                        violation("wrong-record", "%s: %s is not in the window",
                                  c.who().c_str(), r.recs[j].c_str());
                    auto it = m.find(st + j);
                    if (it != m.end() && it->second != p)
                        violation("moved", "%s: position %lld was record %lld, is %lld now",
                                  c.who().c_str(), st + (long long) j, it->second, p);
                    for (auto &e : m)
                        if (e.second == p && e.first != st + (long long) j)
                            violation("twice", "%s: record %lld at %lld and %lld",
                                      c.who().c_str(), p, e.first, st + (long long) j);
                    m[st + j] = p;
                }
            };
            // what a fault may have touched: only genuine records, each once
            auto loose = [&](const Resp &r, const SSet &s, const std::string &syn,
                             const std::string &esn) {
                std::set<long long> got;
                for (auto &t : r.recs)
                {
                    if (t.compare(0, 5, "diag:") == 0)
                        continue;
                    long long p = pos_of(t);
                    if (t != srec(s.term, p, esn, syn) || !got.insert(p).second)
                        violation("wrong-record", "%s: (%s %s) %s", c.who().c_str(),
                                  syn.c_str(), esn.c_str(), t.c_str());
                }
            };
            start();
            for (int k = 0; k < nops; k++)
            {
                static const long long hh[] = { 12, 1, 30, 5, 0, 21 };
                static const char *syns[] = { "xml", "xml", "", "usmarc" };
                static const char *esns[] = { "F", "F", "B", "" };
                unsigned kind = draw_a(ST_OP, a, 5);
                std::string set = strf("s%u", draw_a(ST_OP, a, 2));
                long long hits = hh[draw_a(ST_OP, a, 6)];
                unsigned x = draw_a(ST_OP, a, 12), y = draw_a(ST_OP, a, 12);
                std::string syn = syns[draw_a(ST_OP, a, 4)];
                std::string esn = esns[draw_a(ST_OP, a, 4)];
                bool batch = draw_a(ST_OP, a, pipey ? 2 : 5) == (pipey ? 1 : 4);
                if (op_skipped(a, std::min(k, 11)))
                    continue;
                if (batch && !fden && K.pipe_cap >= 4096)
                {   // several requests at a time
                    int nb = 2 + draw_a(ST_OP, a, 4);
                    std::vector<std::function<void()>> fn;
                    std::map<std::string, SSet> fresh;
                    auto mux = std::make_shared<Mux>(&c);
                    for (int b = 0; b < nb; b++)
                    {
                        auto sc = std::make_shared<MClient>(c);
                        sc->mux = mux;
                        sc->pfx += strf(".b%d.%d", k, b);
                        if (sets.count(set) && sets[set].hits > 1 && draw_a(ST_OP, a, 3))
                        {
                            SSet &s = sets[set];
                            long long bst = 2 + draw_a(ST_OP, a, (unsigned) s.hits - 1);
                            long long bn = std::min(1LL + draw_a(ST_OP, a, 6), s.hits - bst + 1);
                            fn.push_back([=, &s] {
                                Resp r = sc->call(sc->b_present(sc->ref(), set, bst, bn, syn, esn));
                                if (!r.ok() || r.which != Z_APDU_presentResponse)
                                    violation("no-response", "%s: %s", sc->who().c_str(), r.show().c_str());
                                Lst *l = 0;
                                for (auto &e : s.lists)
                                    if (e.syntax == syn && e.esn == esn)
                                        l = &e;
                                if (l && bst - 1 + bn <= (long long) l->pos.size())
                                {
                                    check(r, s, std::vector<long long>(l->pos.begin() + (bst - 1),
                                          l->pos.begin() + (bst - 1 + bn)), syn, esn, true, "cached present");
                                    return;
                                }
                                std::vector<long long> want;
                                for (long long p = bst; p < bst + std::min(bn, (long long) maxper); p++)
                                    want.push_back(p);
                                check(r, s, want, syn, esn, false, "outside");
                            });
                        }
                        else
                        {
                            std::string bt = uterm(a, 1000 + 10 * c.n + b, hits), bs = strf("q%d", b);
                            SearchOpt so;
                            so.set = bs;
                            so.dbs = { "d" };
                            fresh[bs] = SSet{ bt, hits, {} };
                            fn.push_back([=] {
                                Resp r = sc->call(sc->b_search(sc->ref(), bt, so));
                                if (!r.ok() || r.which != Z_APDU_searchResponse || r.hits != hits || r.ndiag)
                                    violation("wrong-hits", "%s: %s", sc->who().c_str(), r.show().c_str());
                            });
                        }
                    }
                    parallel(a, fn);
                    c.n++;
                    for (auto &e : fresh)
                        sets[e.first] = e.second;
                    if (fresh.size() && draw_a(ST_OP, a, 2))
                        set = fresh.begin()->first;
                }
                std::string term;
                Resp r;
                long long st = 1, n = 0;
                bool search = kind < 1 || !sets.count(set), odd = false;
                if (search)
                {
                    SearchOpt so;
                    so.set = set;
                    so.dbs = { "d" };
                    so.syntax = syn;
                    so.esn = esn;
                    static const int sm[] = { 0, 0, 0, 8 }, lg[] = { 1, 20, 1000, 9 };
                    so.small = sm[x % 4];
                    so.large = lg[x % 4];
                    so.medium = y / 2;
                    so.replace = !sets.count(set) || y != 11;
                    term = uterm(a, c.n, hits);
                    r = c.call(c.b_search(c.ref(), term, so));
                    if (!so.replace && !(shaky && (r.closed() || r.which == Z_APDU_close)))
                    {
                        if (r.diag != 21)
                            violation("wrong-diag", "%s: %s", c.who().c_str(), r.show().c_str());
                        continue;
                    }
                    n = hits <= so.small ? hits : hits < so.large ? std::min((long long) so.medium, hits) : 0;
                    sets[set] = SSet{ term, hits, {} };
                }
                else
                {
                    SSet &s = sets[set];
                    term = s.term;
                    hits = s.hits;
                    st = x < 7 ? 1 : 1 + (x - 7) * 3;
                    n = 1 + y;
                    if (kind == 4)
                    {
                        static const long long on[] = { 0, -1, 1000, 2147483647LL,
                            9223372036854775807LL, -9223372036854775807LL };
                        odd = true;
                        if (y < 6)
                            n = on[y];
                        else if (y < 9)
                            st = (long long) y - 8;         // -2..0
                        else
                            set = "none";
                    }
                    r = c.call(c.b_present(c.ref(), set, st, n, syn, esn));
                }
                int f = faulted.count(term) ? faulted[term] : 0;
                if (f == 2)
                    shaky = true;
                else if (shaky && (r.closed() || (r.ok() && r.which == Z_APDU_close)))
                {   // lost while more records were being fetched for an earlier request
                    start();
                    continue;
                }
                if (r.kind == RK_TIMEOUT || (f < 2 && !r.ok()))
                    violation("no-response", "%s: %s", c.who().c_str(), r.show().c_str());
                if (f == 2 && (!r.ok() || r.which == Z_APDU_close))
                {
                    if (r.ok())
                    {
                        if (r.has_refid && r.refid != c.last_ref)
                            violation("wrong-refid", "%s: %s", c.who().c_str(), r.show().c_str());
                        c.timeout = 30 * SEC;      // and the connection ends
                        Resp r2 = c.recv();
                        c.timeout = 600 * SEC;
                        if (!r2.closed() && !closers.count(term))
                            violation("left-open", "%s: after Close: %s", c.who().c_str(),
                                      r2.show().c_str());
                    }
                    start();
                    continue;
                }
                if (f == 2 && r.which != (search ? Z_APDU_searchResponse : Z_APDU_presentResponse))
                {
                    start();            // a target's odd answer is passed on
                    continue;
                }
                if (r.which != (search ? Z_APDU_searchResponse : Z_APDU_presentResponse))
                    violation("wrong-type", "%s: %s", c.who().c_str(), r.show().c_str());
                if (r.refid != c.last_ref)
                    violation("wrong-refid", "%s: %s", c.who().c_str(), r.show().c_str());
                if (set == "none")
                {
                    if (r.diag != 30)
                        violation("wrong-diag", "%s: %s", c.who().c_str(), r.show().c_str());
                    continue;
                }
                SSet &s = sets[set];
                if (f)
                {
                    count("probe.sort_after_fault");
                    loose(r, s, syn, esn);
                    if (search && r.ndiag)
                        sets.erase(set);
                    continue;
                }
                if (search)
                {
                    if (r.hits != hits || r.ndiag)
                        violation("wrong-hits", "%s: %s", c.who().c_str(), r.show().c_str());
                    long long got = std::min(n, (long long) maxper);
                    if (got > 0)
                    {
                        Lst &l = mklist(s, got, syn, esn);
                        check(r, s, std::vector<long long>(l.pos.begin(), l.pos.begin() + got),
                              syn, esn, true, "search");
                        once(r, s, l, 1);
                        count("probe.sort_piggyback");
                    }
                    else if (!r.recs.empty())
                        violation("record-count", "%s: %s", c.who().c_str(), r.show().c_str());
                    continue;
                }
                Lst *l = 0;
                for (auto &e : s.lists)
                    if (e.syntax == syn && e.esn == esn)
                        l = &e;
                if (st < 1 || n < 0 || st > hits || n > hits - st + 1)
                {
                    if (n == 0 ? !r.recs.empty() : r.diag != 13)
                        violation("wrong-diag", "%s: present %lld+%lld of %lld: %s",
                                  c.who().c_str(), st, n, hits, r.show().c_str());
                    continue;
                }
                if (n == 0)
                {
                    if (!r.recs.empty() || r.ndiag)
                        violation("record-count", "%s: present 0: %s", c.who().c_str(),
                                  r.show().c_str());
                    continue;
                }
                long long got = n;
                if (l && st - 1 + n <= (long long) l->pos.size())
                {
                    check(r, s, std::vector<long long>(l->pos.begin() + (st - 1),
                          l->pos.begin() + (st - 1 + n)), syn, esn, true, "cached present");
                    once(r, s, *l, st);
                    count("probe.sort_cached");
                }
                else
                {
                    got = std::min(n, (long long) maxper);
                    std::vector<long long> want;
                    bool sorted = st == 1 && !l;
                    if (sorted)
                    {
                        Lst &nl = mklist(s, got, syn, esn);
                        want.assign(nl.pos.begin(), nl.pos.begin() + got);
                        count("probe.sort_first");
                    }
                    else
                    {
                        for (long long p = st; p < st + got; p++)
                            want.push_back(p);
                        count("probe.sort_outside");
                    }
                    check(r, s, want, syn, esn, sorted, sorted ? "first present" : "outside");
                    if (sorted)
                        once(r, s, s.lists.back(), 1);
                }
                int next = st + got > hits ? 0 : (int) (st + got);
                if (r.next != next)
                    violation("next-position", "%s: %lld+%lld of %lld: next %d",
                              c.who().c_str(), st, got, hits, r.next);
                (void) odd;
            }
            c.bye();
        });
    cl.wait();
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
