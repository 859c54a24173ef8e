// C17: the SRU gateway.
#include "zm.hpp"
#include "sru.hpp"
#include <algorithm>
using namespace sim;

static std::map<std::string, int> faulted;      // term or user -> 1 data, 2 connection
static std::map<std::string, std::vector<std::pair<std::string, std::string>>> seen;
static const int NB = 2;
static ZServer *B[NB];
static unsigned fden;
static int maxper;

static std::string soap(const std::string &term, bool cql, const std::string &fields)
{
    return "<?xml version=\"1.0\"?><SOAP-ENV:Envelope xmlns:SOAP-ENV=\""
        "http://schemas.xmlsoap.org/soap/envelope/\"><SOAP-ENV:Body>"
        "<zs:searchRetrieveRequest xmlns:zs=\"http://www.loc.gov/zing/srw/\">"
        "<zs:version>1.1</zs:version>" + std::string(cql ? "<zs:query>" : "<zs:pQuery>") + term +
        (cql ? "</zs:query>" : "</zs:pQuery>") + fields +
        "</zs:searchRetrieveRequest></SOAP-ENV:Body></SOAP-ENV:Envelope>";
}
namespace {
struct SReq {
    int kind = 0;            // 0 search 1 explain 2 scan 3 no query 4 junk
    std::string term, db, host, user, schema, bytes;
    long long hits = 0, start = 1, max = -999;    // -999: not given
    bool unsupp = false, string_packing = false, keep = true, badhost = false;
    bool checkpack = true, head10 = false, rejected = false, soap = false;
};
}
SCENARIO(sru)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static const unsigned fd[] = { 0, 0, 9, 3 };
    fden = fd[draw(ST_KNOB, 4)];
    static const int mp[] = { 1000000, 4, 1, 1000000 };
    maxper = mp[draw(ST_KNOB, 4)];
    bool named = true;
    for (int i = 0; i < NB; i++)
    {
        B[i] = new ZServer(strf("b%d", i + 1), 210, 1000 + 500 * i);
        B[i]->max_recs_per_present = maxper;
        B[i]->named = named;
        B[i]->policy = [i](BConn &c, BReq &r) {
            if (r.which == Z_APDU_searchRequest)
                seen[r.term].push_back({ B[i]->host, r.dbs.empty() ? "" : r.dbs[0] });
            if (!fden || !chance_a(ST_FAULT, c.actor, 1, fden))
                return B_OK;
            if (r.which == Z_APDU_initRequest)
            {
                static const BAct v[] = { B_DIAG, B_CLOSE, B_RESET, B_WRONG_APDU, B_SILENT,
                    B_PARTIAL, B_GARBAGE, B_CLOSE_APDU };
                BAct a = v[draw_a(ST_FAULT, c.actor, 8)];
                faulted[r.user] = 2;
                sim::log("init of '%s' faulted", r.user.c_str());
                return a;
            }
            static const BAct v[] = { B_FEWER, B_NORECS, B_DIAG, B_SURR, B_MORE, B_NRET_LIE,
                B_ODDENC, B_MULTI, B_FAILQUIET, B_NEGHITS, B_NULLPTR, B_CLOSE, B_RESET,
                B_CLOSE_APDU, B_WRONG_APDU, B_SILENT, B_PARTIAL, B_GARBAGE };
            BAct a = v[draw_a(ST_FAULT, c.actor, 18)];
            faulted[r.term] = std::max(faulted[r.term], a == B_CLOSE || a == B_RESET ||
                a == B_CLOSE_APDU || a == B_WRONG_APDU || a == B_SILENT || a == B_PARTIAL ||
                a == B_GARBAGE ? 2 : 1);
            return a;
        };
        std_backend(*B[i]);
    }
    dns("b4", true);             // nobody listens there
    static ZServer reject("b3", 210, 4000);
    reject.init_fail = true;
    std_backend(reject);
    int limit = chance(ST_KNOB, 1, 3) ? 1 + draw(ST_KNOB, 10) : 0;
    bool dflt = chance(ST_KNOB, 1, 2);
    bool cqlrpn = chance(ST_KNOB, 1, 4);
    bool shared = chance(ST_KNOB, 1, 5);
    bool explaincfg = chance(ST_KNOB, 1, 2);
    std::string fsec, pt;
    if (chance(ST_KNOB, 1, 5))
        pt = "<filter type=\"log\"><message>A</message><filename>/simfs/access.log</filename>"
            "<category access=\"true\" user-access=\"true\" request-apdu=\"true\" "
            "response-apdu=\"true\"/></filter>";
    std::string conf;
    if (explaincfg)
        conf += "<database name=\"d1\"><explain xmlns=\"http://explain.z3950.org/dtd/2.0/\">"
            "<serverInfo><host>conf</host><port>1</port><database>dconf</database>"
            "</serverInfo></explain></database>";
    if (limit)
        conf += strf("<limit retrieve=\"%d\"/>", limit);
    int nc = 1 + draw(ST_KNOB, 4);
    start_proxy(mp_config("<routes><route id=\"start\">" +
        frontend(9000, rand_threads()) + pt + "<filter type=\"sru_z3950\">" + conf + "</filter>" +
        (cqlrpn ? "<filter type=\"cql_rpn\"><conversion file=\"" +
         memfile("set.cql = info:srw/cql-context-set/1/cql-v1.1\n"
                 "index.cql.serverChoice = 1=1016\nrelation.eq = 2=3\nrelation.scr = 2=3\n"
                 "position.any = 3=3 6=1\nstructure.* = 4=1\ntruncation.none = 5=100\n") +
         "\"/></filter>" : "") +
        (shared ? "<filter type=\"session_shared\"/>" : "") +
        "<filter type=\"z3950_client\"><timeout>20</timeout>" +
        (dflt ? "<default_target>b1:210</default_target>" : "") +
        "</filter><filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            HClient h(a, strf("10.1.0.%u", i + 1));
            int n = 0;
            auto build = [&](SReq &q) {
                static const long long hh[] = { 7, 1, 30, 0, 3, 12 };
                q.hits = hh[draw_a(ST_OP, a, 6)];
                q.term = uterm(a, ++n, q.hits);
                q.user = strf("u%u.%d", a, n);
                static const int kk[] = { 0, 0, 0, 0, 0, 0, 1, 2, 3, 4 };
                q.kind = kk[draw_a(ST_OP, a, 10)];
                q.db = strf("d%u", 1 + draw_a(ST_OP, a, 2));
                static const long long mm[] = { 3, -999, 0, 10, 100, 1, -2, 4294967297LL, 2147483647LL };
                static const long long ss[] = { -999, 1, 2, 5, 8, 40, -1, 0, 4294967298LL, 3 };
                q.max = mm[draw_a(ST_OP, a, 9)];
                long long st = ss[draw_a(ST_OP, a, 10)];
                q.start = st == -999 ? 1 : st;
                static const char *sc[] = { "", "dc", "marcxml", "" };
                q.schema = sc[draw_a(ST_OP, a, 4)];
                unsigned pack = draw_a(ST_OP, a, 3);
                unsigned how = draw_a(ST_OP, a, 5);   // GET cql, GET pqf, POST, SOAP, 1.0
                unsigned tgt = draw_a(ST_OP, a, dflt ? 6 : 5);
                static const char *th[] = { "b1", "b2", "b2", "b3", "b4", "" };
                std::string xt = th[tgt];
                q.host = xt.empty() ? "b1" : xt;
                q.badhost = tgt == 3 || tgt == 4;
                unsigned un = draw_a(ST_OP, a, 24);
                q.unsupp = un >= 21;
                q.keep = draw_a(ST_OP, a, 6) != 5;
                unsigned ver = draw_a(ST_OP, a, 3);
                bool xdb = draw_a(ST_OP, a, 3) == 2;
                std::vector<std::pair<std::string, std::string>> p;
                static const char *vers[] = { "1.1", "1.2", "2.0" };
                p.push_back({ "version", vers[ver] });
                q.checkpack = ver != 2;
                static const char *ops[] = { "searchRetrieve", "explain", "scan", "searchRetrieve", "" };
                if (*ops[q.kind])
                    p.push_back({ "operation", ops[q.kind] });
                bool cql = how != 1;
                if (q.kind == 0)
                    p.push_back({ cql ? "query" : ver == 2 ? "query" : "x-pquery", q.term });
                if (q.kind == 0 && !cql && ver == 2)
                    p.push_back({ "queryType", "pqf" });
                if (q.kind == 2)
                    p.push_back({ "scanClause", "m" });
                if (st != -999)
                    p.push_back({ "startRecord", strf("%lld", st) });
                if (q.max != -999)
                    p.push_back({ "maximumRecords", strf("%lld", q.max) });
                if (!q.schema.empty())
                    p.push_back({ "recordSchema", q.schema });
                if (pack && ver != 2)
                    p.push_back({ "recordPacking", pack == 1 ? "xml" : "string" });
                q.string_packing = pack == 2 && ver != 2;
                if (un == 21)
                    p.push_back({ "recordXPath", "/a" });
                if (un == 22)
                    p.push_back({ "resultSetTTL", "10" });
                if (un == 23)
                    p.push_back({ "sortKeys", "title" });
                std::string seen_db = q.db;
                if (!xt.empty())
                {
                    if (xdb)
                    {
                        q.db = "xd";
                        xt += ":210/xd";
                    }
                    else
                        xt += ":210";
                    p.push_back({ "x-target", xt });
                }
                p.push_back({ "x-username", q.user });
                p.push_back({ "x-password", "pw" });
                if (draw_a(ST_OP, a, 6) == 5)
                    p.push_back({ "x-log-enable", "1" });
                std::string args;
                for (auto &e : p)
                    args += (args.empty() ? "" : "&") + e.first + "=" + urlenc(e.second);
                std::string hdr = draw_a(ST_OP, a, 4) == 3 ? "X-Forwarded-For: 10.9.9.9\r\n" : "";
                if (q.kind == 4)
                {
                    static const char *junk[] = {
                        "<a><b></a", "abc", 0,
                        "<SOAP-ENV:Envelope xmlns:SOAP-ENV=\"http://schemas.xmlsoap.org/soap/envelope/\"><SOAP-ENV:Body>"
                        "<zzz/></SOAP-ENV:Body></SOAP-ENV:Envelope>",
                        "<SOAP-ENV:Envelope xmlns:SOAP-ENV=\"http://schemas.xmlsoap.org/soap/envelope/\"><SOAP-ENV:Body>"
                        "<zs:scanRequest xmlns:zs=\"http://www.loc.gov/zing/srw/\"/></SOAP-ENV:Body></SOAP-ENV:Envelope>",
                        "" };
                    static const char *plain[] = {
                        "DELETE /d1 HTTP/1.1\r\nHost: proxy\r\n\r\n",
                        "GET /d1?x-target&x-session-id&x-max-sockets&x-client-a HTTP/1.1\r\nHost: proxy\r\n\r\n",
                        "GET /a%3Cb<&amp;?operation=explain HTTP/1.1\r\nHost: a<b&:1\r\n\r\n",
                        "GET /d1?query=%&version=1.1&operation=searchRetrieve&maximumRecords=abc HTTP/1.1\r\nHost: proxy\r\n\r\n",
                        "GET /d1?version=1.1&operation=update&x-target=b1 HTTP/1.1\r\nHost: proxy\r\n\r\n",
                        "GET / HTTP/1.0\r\n\r\n" };
                    unsigned jk = draw_a(ST_OP, a, 12);
                    if (jk < 6)
                        q.bytes = plain[jk];
                    else if (const char *body = junk[jk - 6])
                        q.bytes = HClient::b_post("/d1", body, true, "Content-Type: text/xml\r\n");
                    else
                        q.bytes = HClient::b_post("/d1", "abc", true, "Content-Type: application/x-foo\r\n");
                    q.keep = false;
                    return;
                }
                if (how == 2)
                    q.bytes = HClient::b_post("/" + seen_db, args, q.keep, hdr +
                        "Content-Type: application/x-www-form-urlencoded\r\n");
                else if (how == 3 && q.kind == 0 && !q.unsupp && ver != 2)
                {
                    std::string f;
                    if (st != -999)
                        f += strf("<zs:startRecord>%lld</zs:startRecord>", st);
                    if (q.max != -999)
                        f += strf("<zs:maximumRecords>%lld</zs:maximumRecords>", q.max);
                    f += std::string("<zs:recordPacking>") + (pack == 2 ? "string" : "xml") + "</zs:recordPacking>";
                    if (!q.schema.empty())
                        f += "<zs:recordSchema>" + q.schema + "</zs:recordSchema>";
                    std::string qs;
                    if (!xt.empty())
                        qs = "x-target=" + urlenc(xt) + "&";
                    qs += "x-username=" + q.user;
                    // SOAP takes no such arguments: the default target or none
                    q.user = "";
                    q.host = "b1";
                    q.db = seen_db;
                    q.badhost = !dflt;
                    q.bytes = HClient::b_post("/" + seen_db + "?" + qs, soap(q.term, true, f), q.keep,
                        hdr + "Content-Type: text/xml\r\nSOAPAction: \"\"\r\n");
                    q.kind = dflt ? 0 : 5;
                    q.soap = true;
                }
                else if (how == 4)
                {
                    q.head10 = true;
                    q.keep = draw_a(ST_OP, a, 2);
                    q.bytes = "GET /" + seen_db + "?" + args + " HTTP/1.0\r\nHost: proxy\r\n" +
                        (q.keep ? "Connection: Keep-Alive\r\n" : "") + hdr + "\r\n";
                }
                else
                    q.bytes = HClient::b_get("/" + seen_db + "?" + args, q.keep, hdr);
            };
            // YAZ reads these arguments as int, and names in diagnostic 6
            // the ones it does not take
            auto settle = [&](SReq &q) {
                if (q.kind == 4 || q.soap)
                    return;
                q.start = (int) q.start;
                if (q.start < 1)
                {
                    q.start = 1;
                    q.rejected = true;
                }
                if (q.max != -999 && (q.max = (int) q.max) < 0)
                {
                    q.max = -999;
                    q.rejected = true;
                }
            };
            auto check = [&](SReq &q, const Resp &r) {
                auto who = [&] { return strf("client %u %s (%s %lld+%lld of %lld)", a,
                    q.term.c_str(), q.host.c_str(), q.start, q.max, q.hits); };
                if (!r.ok())
                    violation("no-response", "%s: %s", who().c_str(), r.show().c_str());
                if (q.kind == 4)
                {
                    if (r.http_code != 200 && r.http_code != 400)
                        violation("http-code", "%s: junk: %d", who().c_str(), r.http_code);
                    if (r.http_code == 200 && !parse_sru(r.body).wellformed)
                        violation("ill-formed", "%s: %s", who().c_str(), r.body.c_str());
                    return;
                }
                if (r.http_code != 200)
                    violation("http-code", "%s: %d", who().c_str(), r.http_code);
                if (verbose())
                    sim::log("client got %s", r.body.c_str());
                SruResp s = parse_sru(r.body);
                if (!s.wellformed)
                    violation("ill-formed", "%s: %s", who().c_str(), r.body.c_str());
                auto diag = [&](int d) {
                    return std::find(s.diags.begin(), s.diags.end(), d) != s.diags.end(); };
                if (q.unsupp && diag(8))
                {                                   // YAZ does not know the argument
                    q.unsupp = false;
                    s.diags.erase(std::find(s.diags.begin(), s.diags.end(), 8));
                }
                if (q.rejected && (q.kind == 0 || q.kind == 3 || q.kind == 5))
                {
                    if (!diag(6))
                        violation("wrong-diag", "%s: no diagnostic 6: %s", who().c_str(), r.body.c_str());
                    s.diags.erase(std::remove(s.diags.begin(), s.diags.end(), 6), s.diags.end());
                }
                std::string sh = strf("hits=%lld next=%lld recs=%zu diags=%zu first=%d", s.hits,
                    s.next, s.recs.size(), s.diags.size(), s.diags.empty() ? 0 : s.diags[0]);
                if (q.kind == 1)
                {
                    bool c = explaincfg && q.db == "d1";
                    if (s.root != "explainResponse" || (c ? s.explain_db != "dconf" :
                        s.explain_db.empty()))
                        violation("explain", "%s: %s %s", who().c_str(), s.root.c_str(), s.explain_db.c_str());
                    return;
                }
                if (q.kind == 2)
                {
                    if (s.root != "scanResponse" || !diag(4))
                        violation("scan", "%s: %s %s", who().c_str(), s.root.c_str(), sh.c_str());
                    return;
                }
                if (s.root != "searchRetrieveResponse")
                    violation("wrong-type", "%s: %s", who().c_str(), s.root.c_str());
                if (q.kind == 3)
                {
                    if (!diag(7))
                        violation("wrong-diag", "%s: no query: %s", who().c_str(), sh.c_str());
                    return;
                }
                // every record must be one of this set, at its own position
                std::set<long long> got;
                for (auto &x : s.recs)
                {
                    if (x.diag)
                        continue;
                    if (x.data != rec_text(q.host, q.db, q.term, x.pos, q.schema, "") ||
                        !got.insert(x.pos).second)
                        violation("wrong-record", "%s: position %lld: %s", who().c_str(), x.pos,
                                  x.data.c_str());
                }
                if (q.kind == 5 || q.badhost)
                {
                    if (s.diags.empty() || !s.recs.empty())
                        violation("wrong-diag", "%s: no target: %s", who().c_str(), sh.c_str());
                    count("probe.sru_no_target");
                    return;
                }
                int f = std::max(faulted.count(q.term) ? faulted[q.term] : 0,
                                 faulted.count(q.user) ? faulted[q.user] : 0);
                if (f && seen[q.term].empty())
                {
                    if (s.diags.empty())
                        violation("no-diag", "%s: target failed: %s", who().c_str(), sh.c_str());
                    return;
                }
                auto &sn = seen[q.term];
                if (sn.empty() || (sn.size() > 1 && !shared) || sn[0].first != q.host || sn[0].second != q.db)
                    violation("wrong-target", "%s: seen by %s %s (%zu), want %s %s", who().c_str(),
                              sn.empty() ? "" : sn[0].first.c_str(),
                              sn.empty() ? "" : sn[0].second.c_str(), sn.size(), q.host.c_str(), q.db.c_str());
                long long max = q.max == -999 ? 0 : q.max;
                if (f)
                {
                    count("probe.sru_after_fault");
                    if (s.hits != q.hits && s.hits != -1 && s.diags.empty())
                        violation("no-diag", "%s: target failed: %s", who().c_str(), sh.c_str());
                    if ((long long) s.recs.size() > std::max(max, 0LL))
                        violation("record-count", "%s: %s", who().c_str(), sh.c_str());
                    return;
                }
                if (s.hits != q.hits)
                    violation("wrong-hits", "%s: %s", who().c_str(), sh.c_str());
                if (q.hits == 0 || max == 0)
                {
                    if (!s.diags.empty() || !s.recs.empty())
                        violation("record-count", "%s: none wanted: %s", who().c_str(), sh.c_str());
                    return;
                }
                if (q.unsupp)
                {
                    if (s.diags.empty() || !s.recs.empty())
                        violation("wrong-diag", "%s: unsupported argument: %s", who().c_str(), sh.c_str());
                    return;
                }
                if (max < 0 || q.start < 1 || q.start > q.hits)
                {
                    if (s.diags.empty() || !s.recs.empty() ||
                        (max < 0 && !diag(6)) || (max > 0 && !diag(61)))
                        violation("wrong-diag", "%s: out of range: %s", who().c_str(), sh.c_str());
                    return;
                }
                if (limit)
                    max = std::min(max, (long long) limit);
                long long want = std::min(max, q.hits - q.start + 1);
                if (!s.diags.empty() || (long long) s.recs.size() != want)
                    violation("record-count", "%s: want %lld: %s", who().c_str(), want, sh.c_str());
                for (long long j = 0; j < want; j++)
                    if (s.recs[j].diag || s.recs[j].pos != q.start + j ||
                        (q.checkpack && (s.recs[j].packing != (q.string_packing ? "string" : "xml"))) ||
                        (!q.schema.empty() && s.recs[j].schema != q.schema))
                        violation("wrong-record", "%s: record %lld: position %lld packing %s schema %s diag %d",
                                  who().c_str(), j, s.recs[j].pos, s.recs[j].packing.c_str(),
                                  s.recs[j].schema.c_str(), s.recs[j].diag);
                long long next = q.start + want <= q.hits ? q.start + want : -1;
                if (s.next != next)
                    violation("next-position", "%s: %s, want %lld", who().c_str(), sh.c_str(), next);
                count("probe.sru_exact");
            };
            int nops = 1 + draw_a(ST_OP, a, 8);
            for (int k = 0; k < nops; )
            {
                int batch = draw_a(ST_OP, a, 4) == 3 && K.pipe_cap >= 4096 ? 2 + draw_a(ST_OP, a, 3) : 1;
                std::vector<SReq> qs(batch);
                for (auto &q : qs)
                {
                    build(q);
                    settle(q);
                }
                k += batch;
                if (op_skipped(a, std::min(k, 11)))
                    continue;
                if (!h.open)
                {
                    if (!h.connect())
                        violation("no-connect", "client %u", a);
                }
                std::string bytes;
                for (int j = 0; j < batch; j++)
                {
                    bytes += qs[j].bytes;
                    if (!qs[j].keep)
                        qs.resize(batch = j + 1);
                }
                if (batch > 1)
                    count("probe.sru_pipelined");
                i64 t0 = now();
                if (verbose())
                    sim::log("client sends %s", bytes.c_str());
                h.st.write(bytes, now() + h.timeout);
                for (auto &q : qs)
                {
                    Resp r = h.recv();
                    check(q, r);
                    std::string c = r.headers.count("connection") ? r.headers["connection"] : "";
                    if (!q.keep || !strcasecmp(c.c_str(), "close"))
                    {
                        if (q.keep && !q.head10)
                            violation("closed", "client %u: keep-alive connection closed", a);
                        h.timeout = (q.kind == 4 ? 1 : 60) * SEC;
                        Resp r2 = h.recv();
                        h.timeout = 600 * SEC;
                        if (!r2.closed() && (q.kind != 4 || !strcasecmp(c.c_str(), "close")))
                            violation("left-open", "client %u: %s", a, r2.show().c_str());
                        h.close();
                        break;
                    }
                }
                if (now() - t0 > batch * (80 * SEC + margin()))
                    violation("late", "client %u: %d requests took %.1f s", a, batch, (now() - t0) / 1e6);
                if (h.open && draw_a(ST_OP, a, 6) == 5)
                    h.close();
            }
            h.close();
        });
    cl.wait();
    if (!wait_fds(fds0, (shared ? 200 : 62) * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
