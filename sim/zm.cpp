#include "zm.hpp"
#include <unistd.h>
#include <sys/syscall.h>
extern "C" ssize_t __real_write(int, const void *, size_t);
namespace sim {
std::string memfile(const std::string &c)
{
    int fd = (int) syscall(SYS_memfd_create, "f", 0);
    if (fd < 0 || (size_t) __real_write(fd, c.data(), c.size()) != c.size())
        violation("harness", "memfile");
    return strf("/proc/self/fd/%d", fd);
}
std::string uterm(unsigned actor, int k, long long hits)
{
    return strf("h%lld_c%u_%d", hits, actor, k);
}
bool wait_fds(int n, i64 limit)
{
    return block("wait_fds", [n] { return open_fds() <= n; }, now() + limit);
}
int idle_fds()
{
    sleep_us(SEC);
    if (!block("idle_fds", [] { return open_fds() - open_file_count() >= 3; }, now() + 60 * SEC))
        violation("no-start", "worker pool not there");
    return open_fds();
}
Resp Mux::call(const std::string &bytes, const std::string &ref, i64 timeout)
{
    i64 dl = now() + timeout;
    open.insert(ref);
    if (writing)
        block("mux write", [this] { return !writing; }, dl);
    writing = true;
    c->send_raw(bytes);
    writing = false;
    dirty();
    while (1)
    {
        auto it = in.find(ref);
        if (it != in.end())
        {
            Resp r = it->second;
            in.erase(it);
            open.erase(ref);
            return r;
        }
        if (ended)
            return end;
        if (reading)
        {
            if (!block("mux read", [&] { return !reading || ended || in.count(ref); }, dl))
                return Resp();
            continue;
        }
        reading = true;
        Resp r = c->recv();
        reading = false;
        dirty();
        if (!r.ok() || r.which == Z_APDU_close)
        {
            ended = true;
            end = r;
            end.has_refid = false;
        }
        else if (!open.count(r.refid) || in.count(r.refid))
            violation("pipeline-refid", "client %u: reference id %s is not open", c->actor,
                      r.refid.c_str());
        else
            in[r.refid] = r;
    }
}
void parallel(unsigned actor, const std::vector<std::function<void()>> &v)
{
    std::vector<int> t;
    for (auto &f : v)
        t.push_back(spawn("sub", f, actor));
    for (int i : t)
        join(i);
    count("probe.pipelined_batch");
}
bool MClient::go(const std::string &bytes, int which, Resp &r)
{
    i64 t0 = now();
    r = call(bytes);
    t_call = now() - t0;
    if (max_call >= 0 && t_call > max_call)
        violation("late", "%s: %.3f s, bound %.3f s: %s", who().c_str(),
                  t_call / 1e6, max_call / 1e6, r.show().c_str());
    if (r.kind == RK_TIMEOUT)
        violation("no-response", "%s: nothing within %.0f s", who().c_str(),
                  timeout / 1e6);
    if (r.kind == RK_JUNK)
        violation("junk", "%s: undecodable response", who().c_str());
    if (tolerate && (r.closed() || (r.ok() && r.which == Z_APDU_close)))
    {
        dead = true;
        if (r.ok() && r.has_refid && r.refid != last_ref)
            violation("wrong-refid", "%s: Close carries %s", who().c_str(),
                      r.refid.c_str());
        close();
        return false;
    }
    if (!r.ok())
        violation("lost-connection", "%s: %s", who().c_str(), r.show().c_str());
    if (r.which != which)
        violation("wrong-type", "%s: want APDU %d: %s", who().c_str(), which,
                  r.show().c_str());
    if (r.refid != last_ref)
        violation("wrong-refid", "%s: got '%s': %s", who().c_str(),
                  r.refid.c_str(), r.show().c_str());
    return true;
}
bool MClient::must_connect(int port)
{
    if (!connect(port))
        violation("refused", "client %u cannot connect", actor);
    return true;
}
bool MClient::init(const std::string &user, const std::string &pass, bool named,
                   const std::string &vhost)
{
    Resp r;
    if (!go(b_init(ref(), user, pass, named, 3, vhost), Z_APDU_initResponse, r))
        return false;
    if (!r.init_ok)
    {
        if (tolerate)
        {
            dead = true;
            close();
            return false;
        }
        violation("init-rejected", "%s: %s", who().c_str(), r.show().c_str());
    }
    return true;
}
void MClient::check_recs(const Resp &r, const MSet &s, long long start,
                         long long num, const std::string &syntax,
                         const std::string &esn)
{
    if (r.ndiag)
        violation("unexpected-diag", "%s: records %lld+%lld of %s: %s",
                  who().c_str(), start, num, s.term.c_str(), r.show().c_str());
    if ((long long) r.recs.size() != num || r.returned != num)
        violation("record-count", "%s: want %lld records, got %zu (says %d): %s",
                  who().c_str(), num, r.recs.size(), r.returned, r.show().c_str());
    for (long long i = 0; i < num; i++)
    {
        std::string want = rec ? rec(s, start + i, esn, syntax) :
            rec_text(s.host, s.db, s.term, start + i, esn, syntax);
        if (r.recs[i] != want)
            violation("wrong-record", "%s: position %lld: want %s got %s",
                      who().c_str(), start + i, want.c_str(), r.recs[i].c_str());
    }
}
void MClient::check_asi(const Resp &r, const std::string &asi, const std::string &term)
{
    std::string w = asi.empty() ? "" : asi + ":" + term;
    // the term may be part of the query as the target sees it
    if (w.empty() ? !r.asi.empty() : r.asi.compare(0, asi.size() + 1, asi + ":") != 0 ||
        r.asi.find(term) == std::string::npos)
        violation("wrong-search-info", "%s: want '%s' got '%s'", who().c_str(), w.c_str(),
                  r.asi.c_str());
    if (!w.empty())
        count("probe.additional_search_info");
}
bool MClient::search(const std::string &set, const std::string &host,
                     const std::string &db, const std::string &term,
                     const SearchOpt &o, const std::string &bdb)
{
    SearchOpt so = o;
    so.set = set;
    so.dbs = { db };
    Resp r;
    if (!go(b_search(ref(), term, so), Z_APDU_searchResponse, r))
        return false;
    if (r.ndiag)
    {
        if (tolerate)
        {
            sets.erase(set);
            return false;
        }
        violation("unexpected-diag", "%s: search %s: %s", who().c_str(),
                  term.c_str(), r.show().c_str());
    }
    long long hits = term_hits(term);
    if (r.hits != hits || !r.success)
        violation("wrong-hits", "%s: search %s: %s", who().c_str(), term.c_str(),
                  r.show().c_str());
    check_asi(r, so.asi, term);
    sets[set] = { host, bdb.empty() ? db : bdb, term, hits, "" };
    long long want = 0;
    if (hits <= so.small)
        want = hits;
    else if (hits < so.large)
        want = std::min((long long) so.medium, hits);
    check_recs(r, sets[set], 1, want, so.syntax, so.esn);
    return true;
}
bool MClient::present(const std::string &set, long long start, long long num,
                      const std::string &syntax, const std::string &esn)
{
    Resp r;
    if (!go(b_present(ref(), set, start, num, syntax, esn),
            Z_APDU_presentResponse, r))
        return false;
    if (tolerate && r.ndiag)
        return false;
    check_recs(r, sets[set], start, num, syntax, esn);
    return true;
}
void MClient::quiet(i64 us)
{
    i64 t = timeout;
    timeout = us;
    Resp r = recv();
    timeout = t;
    if (r.kind == RK_MSG || r.kind == RK_JUNK)
        violation("unsolicited", "client %u: %s", actor, r.show().c_str());
    if (r.closed() && !tolerate)
        violation("lost-connection", "client %u: idle connection ended", actor);
}
void MClient::bye() { close(); }
// ------------------------------------------------------------------ helpers
std::string passthru(std::string *filters_section)
{   // a few filters that must not change anything
    std::string s;
    if (chance(ST_KNOB, 1, 3))
        s += "<filter type=\"log\"><message>A</message>"
            "<filename>/simfs/access.log</filename>"
            "<category access=\"true\" user-access=\"true\" apdu=\"true\" "
            "response-apdu=\"true\" request-session=\"true\"/></filter>\n";
    if (chance(ST_KNOB, 1, 5))
    {
        *filters_section += "<filter id=\"lg\" type=\"log\"><message>B</message>"
            "</filter>\n";
        s += "<filter refid=\"lg\"/>\n";
    }
    if (chance(ST_KNOB, 1, 5))
        s += "<filter type=\"template\"/>\n";
    if (chance(ST_KNOB, 1, 5))
        s += "<filter type=\"limit\"><limit retrieve=\"1000\"/></filter>\n";
    if (chance(ST_KNOB, 1, 5))
        s += "<filter type=\"query_rewrite\"/>\n";
    if (chance(ST_KNOB, 1, 6))
        s += "<filter type=\"present_chunk\"><chunk>1000</chunk></filter>\n";
    if (chance(ST_KNOB, 1, 6))
        s += "<filter type=\"sru_z3950\"><database name=\"x\"/></filter>\n";
    return s;
}
std::string zclient(const std::string &extra)
{
    return "<filter type=\"z3950_client\"><timeout>30</timeout>"
        "<default_target>b1:210</default_target>" + extra +
        "</filter><filter type=\"bounce\"/>";
}
std::string rand_threads()
{
    static const int nt[] = { 0, 1, 2, 3, 10 };
    int t = nt[draw(ST_KNOB, 5)];
    std::string s;
    if (t)
        s = strf("<threads>%d</threads>", t);
    if (chance(ST_KNOB, 1, 3))
        s += strf("<max-threads>%d</max-threads>", (t ? t : 5) + (int) draw(ST_KNOB, 3));
    return s;
}
const char *rand_syntax(unsigned a)
{
    static const char *sy[] = { "xml", "usmarc", "sutrs" };
    return sy[draw_a(ST_OP, a, 3)];
}
// a correct client doing random correct things
void model_ops(MClient &c, int nops, const std::string &host,
               unsigned opbase)
{
    unsigned a = c.actor;
    for (int i = 0; i < nops && !c.dead; i++)
    {
        unsigned kind = draw_a(ST_OP, a, 12);
        if (op_skipped(a, opbase + i))
            continue;
        std::string set = strf("s%u", draw_a(ST_OP, a, 3));
        Resp r;
        if (c.sets.empty() && kind > 1 && kind < 8)
            kind = 0;
        if (kind <= 3)
        {
            SearchOpt so;
            static const long long hh[] = { 3, 0, 1, 17, 120 };
            long long h = hh[draw_a(ST_OP, a, 5)];
            if (draw_a(ST_OP, a, 3) == 1)
            {
                so.small = 5;
                so.large = 20;
                so.medium = 2;
                so.syntax = "xml";
                so.esn = "B";
            }
            c.search(set, host, strf("db%u", draw_a(ST_OP, a, 2)),
                     uterm(a, c.n, h), so);
        }
        else if (kind <= 7)
        {
            if (!c.sets.count(set))
                set = c.sets.begin()->first;
            MSet &s = c.sets[set];
            if (s.hits == 0)
                continue;
            long long st = 1 + draw_a(ST_OP, a, (unsigned) s.hits);
            long long n = 1 + draw_a(ST_OP, a, (unsigned) std::min(10LL, s.hits - st + 1));
            c.present(set, st, n, rand_syntax(a), draw_a(ST_OP, a, 2) ? "F" : "B");
        }
        else if (kind == 8)
        {   // out of range
            if (c.sets.empty())
                continue;
            std::string s0 = c.sets.begin()->first;
            if (!c.go(c.b_present(c.ref(), s0, c.sets[s0].hits + 1, 2),
                      Z_APDU_presentResponse, r))
                return;
            if (r.diag != 13 && !(c.tolerate && r.ndiag))
                violation("wrong-diag", "%s: want 13: %s", c.who().c_str(),
                          r.show().c_str());
        }
        else if (kind == 9)
        {   // unknown set
            if (!c.go(c.b_present(c.ref(), "nosuch", 1, 1),
                      Z_APDU_presentResponse, r))
                return;
            if (r.diag != 30 && !(c.tolerate && r.ndiag))
                violation("wrong-diag", "%s: want 30: %s", c.who().c_str(),
                          r.show().c_str());
        }
        else if (kind == 10)
        {
            if (!c.go(c.b_scan(c.ref(), "db0", "m", 3, 1), Z_APDU_scanResponse, r))
                return;
            if (c.tolerate && r.ndiag)
                continue;
            if (r.terms.size() != 3 || r.terms[0].first != "m1" ||
                r.terms[2].first != "m3")
                violation("wrong-scan", "%s: %s", c.who().c_str(), r.show().c_str());
        }
        else
        {   // search that the backend refuses
            SearchOpt so;
            so.set = "bad";
            if (!c.go(c.b_search(c.ref(), strf("err%d", 100 + (int) (a % 100)), so),
                      Z_APDU_searchResponse, r))
                return;
            if ((r.diag != 100 + (int) (a % 100) || r.addinfo.find("err") != 0) &&
                !(c.tolerate && r.ndiag))
                violation("wrong-diag", "%s: %s", c.who().c_str(), r.show().c_str());
        }
    }
}
// k requests in one go; every one answered once
void pipelined(MClient &c, const std::string &host)
{
    unsigned a = c.actor;
    std::string set = "pp";
    if (!c.search(set, host, "db0", uterm(a, c.n, 20)))
        return;
    int k = 2 + draw_a(ST_OP, a, 4);
    std::map<std::string, std::pair<long long, long long>> want;
    std::string bytes;
    for (int i = 0; i < k; i++)
    {
        long long st = 1 + draw_a(ST_OP, a, 10), n = 1 + draw_a(ST_OP, a, 5);
        std::string ref = c.ref();
        want[ref] = { st, n };
        bytes += c.b_present(ref, set, st, n, "xml", "F");
    }
    c.send_raw(bytes);
    for (int i = 0; i < k; i++)
    {
        Resp r = c.recv();
        if (c.tolerate && (r.closed() || (r.ok() && r.which == Z_APDU_close)))
        {
            c.dead = true;
            c.close();
            return;
        }
        if (!r.ok() || r.which != Z_APDU_presentResponse)
            violation("pipeline", "client %u: %d of %d answered: %s", a, i, k,
                      r.show().c_str());
        auto it = want.find(r.refid);
        if (it == want.end())
            violation("pipeline-refid", "client %u: reference id %s is not open",
                      a, r.refid.c_str());
        c.last_ref = r.refid;
        if (!(c.tolerate && r.ndiag))
            c.check_recs(r, c.sets[set], it->second.first, it->second.second,
                         "xml", "F");
        want.erase(it);
    }
    count("probe.pipelined_batch");
}
void std_backend(ZServer &s)
{
    dns(s.host, true);
    s.scan_terms = { "a1", "k9", "m1", "m2", "m3", "m4", "z1" };
    s.start();
}
i64 margin() { return 5 * SEC + 60 * K.lat_max + K.stall_max_ms * 100 * MS; }
}
