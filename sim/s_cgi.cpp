// C20: CGI programs.
#include "zm.hpp"
#include "procs.hpp"
#include <algorithm>
#include <string.h>
#include <signal.h>
using namespace sim;

namespace {
enum Kind { OK, PIECES, NOREAD, CLOSEIN, TOEOF, CAT, SLOW, EARLYOUT,   // must be answered with 200
            EMPTY, FAIL, CUT, STALL, STALLHARD, HALFSTALL, HALFHARD,   // must be answered with an error
            KINDS };
struct Plan {
    int id, kind, prog;
    std::string method, uri, script, info, query, body, ctype, cookie, agent;
    std::string out;                    // body the program writes
    std::vector<std::pair<size_t, i64>> pieces;
    i64 work = 0;                       // time the program needs at least
    int runs = 0;
    bool done = false;                  // the program got to its end
    i64 started = 0;
};
}
static std::vector<std::shared_ptr<Plan>> plans;
static std::string docroot;
static std::map<std::string, std::string> uenv;

static std::string text(unsigned id, size_t n)
{
    std::string s = strf("<out%u>", id);
    u64 h = id;
    while (s.size() < n)
    {
        h = mix(h, s.size());
        s += (char) ('a' + h % 26);
    }
    s.resize(n);
    return s;
}
static bool pause_us(ChildIO &io, i64 us)
{
    ChildIO *p = &io;
    if (block("cgi sleep", [p] { return (bool) p->killed; }, now() + us))
        return false;
    return true;
}
static int program(ChildIO &io)
{
    auto get = [&](const char *n) { return io.env.count(n) ? io.env[n] : std::string("(none)"); };
    std::string q = get("QUERY_STRING");
    size_t pp = q.find("id=");
    std::shared_ptr<Plan> p;
    if (pp != std::string::npos && (unsigned) atoi(q.c_str() + pp + 3) < plans.size())
        p = plans[atoi(q.c_str() + pp + 3)];
    if (!p)
        violation("environment", "program %s started with QUERY_STRING '%s'", io.path.c_str(), q.c_str());
    io.ignore_term = p->kind == STALLHARD || p->kind == HALFHARD;
    p->started = now();
    if (++p->runs > 1)
        violation("run-twice", "request %d started %d programs", p->id, p->runs);
    auto want = [&](const char *n, const std::string &v) {
        if (get(n) != v)
            violation("environment", "request %d (%s): %s is '%s', want '%s'", p->id, p->uri.c_str(), n,
                      get(n).c_str(), v.c_str());
    };
    want("REQUEST_METHOD", p->method);
    want("REQUEST_URI", p->uri);
    want("SCRIPT_NAME", p->script);
    want("PATH_INFO", p->info);
    want("QUERY_STRING", p->query);
    want("HTTP_COOKIE", p->cookie.empty() ? "(none)" : p->cookie);
    want("HTTP_USER_AGENT", p->agent.empty() ? "(none)" : p->agent);
    if (!p->ctype.empty())
        want("CONTENT_TYPE", p->ctype);
    else
        want("CONTENT_TYPE", "(none)");
    if (!p->body.empty())
        want("CONTENT_LENGTH", strf("%zu", p->body.size()));
    else if (get("CONTENT_LENGTH") != "0")
        want("CONTENT_LENGTH", "(none)");
    for (auto &e : uenv)
        want(e.first.c_str(), e.second);
    want("DOCUMENT_ROOT", docroot);
    static const char *progs[] = { "/simcgi/bin/prog", "/rel/prog2", "" };
    std::string full = p->prog == 1 ? docroot + progs[1] : progs[0];
    if (io.path != full)
        violation("program", "request %d runs %s, want %s", p->id, io.path.c_str(), full.c_str());
    if (io.extra_fds)
        violation("inherit", "program of request %d starts with %d descriptors beside its own:%s", p->id,
                  io.extra_fds, io.extra.c_str());
    if (!io.in || !io.out)
        violation("environment", "program of request %d lacks standard input or output", p->id);
    auto in = [&](size_t n, std::string &got) {
        char buf[3000];
        while (got.size() < n)
        {
            long r = proc_read(io.in, buf, std::min(sizeof buf, n - got.size()), -1);
            if (r <= 0)
                return r == 0;
            got.append(buf, r);
        }
        return true;
    };
    std::string got;
    bool reads = p->kind != NOREAD && p->kind != CLOSEIN && p->kind != CAT && p->kind != STALL &&
        p->kind != STALLHARD;
    if (p->kind == CLOSEIN)
        proc_close(io, 0);
    if (reads)
    {
        bool ok = p->kind == TOEOF ? in(1u << 30, got) : in(p->body.size(), got);
        if (io.killed || proxy_exited())
            return 0;
        if (!ok || got != p->body)
            violation("input", "program of request %d read %zu bytes, the request has %zu", p->id, got.size(),
                      p->body.size());
    }
    std::string head = strf("Content-Type: text/plain\r\nX-Id: %d\r\n", p->id);
    switch (p->kind)
    {
    case EMPTY:
        p->done = true;
        return 0;
    case FAIL:
        p->done = true;
        return 3;
    case STALL:
    case STALLHARD:
        count("fault.child_stalls");
        pause_us(io, 100000 * SEC);
        return 0;
    case HALFSTALL:
    case HALFHARD:
        count("fault.child_stalls");
        proc_write(io.out, head + "\r\n" + p->out.substr(0, p->out.size() / 2));
        pause_us(io, 100000 * SEC);
        return 0;
    case CUT:
        count("fault.child_dies");
        proc_write(io.out, head + strf("Content-Length: %zu\r\n\r\n", p->out.size()) +
                   p->out.substr(0, p->out.size() / 2));
        return 1;
    case CAT:
    {
        if (!proc_write(io.out, head + "\r\n"))
            return 1;
        char buf[1000];
        size_t n = 0;
        while (n < p->body.size())
        {
            long r = proc_read(io.in, buf, sizeof buf, -1);
            if (r <= 0)
                return 1;
            n += r;
            if (!proc_write(io.out, std::string(buf, r)))
                return 1;
        }
        p->done = true;
        return 0;
    }
    }
    std::string all = head + (p->id % 2 ? strf("Content-Length: %zu\r\n", p->out.size()) : "") + "\r\n" + p->out;
    size_t pos = 0;
    for (auto &x : p->pieces)
    {
        if (pos == all.size())
            break;
        if (x.second && !pause_us(io, x.second))
            return 0;
        size_t n = std::min(x.first, all.size() - pos);
        if (n && !proc_write(io.out, all.substr(pos, n)))
            return 1;
        pos += n;
    }
    if (!proc_write(io.out, all.substr(pos)))
        return 1;
    if (p->kind == EARLYOUT)
    {
        proc_close(io, 1);
        if (!pause_us(io, p->work))
            return 0;
    }
    p->done = true;
    return p->id % 3 == 2;
}
SCENARIO(cgi)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    plans.clear();
    uenv.clear();
    docroot = chance(ST_KNOB, 1, 2) ? "/simfs/doc" : "";
    if (chance(ST_KNOB, 1, 2))
        uenv["MYVAR"] = "my value";
    if (chance(ST_KNOB, 1, 4))
        uenv["SERVER_SOFTWARE"] = "x";
    child_program = program;
    std::string conf;
    if (!docroot.empty())
        conf += "<documentroot>" + docroot + "</documentroot>";
    for (auto &e : uenv)
        conf += "<env name=\"" + e.first + "\" value=\"" + e.second + "\"/>";
    conf += "<map path=\"/cgi/a\" exec=\"/simcgi/bin/prog\"/>";
    if (!docroot.empty())
        conf += "<map path=\"/cgi/rel\" exec=\"./rel/prog2\"/>";
    conf += "<map path=\"/gone\" exec=\"/simcgi/missing\"/>";
    int nc = 1 + draw(ST_KNOB, 5);
    unsigned mode = draw(ST_KNOB, 5);        // 0, 1: no faults; 2: stalls; 3, 4: everything
    bool stalls = mode >= 2, sysfail = mode >= 4 && chance(ST_KNOB, 1, 2);
    bool leave = mode >= 3;
    bool term = chance(ST_KNOB, 1, 6);
    static bool stopped;
    static i64 term_at;
    stopped = false;
    start_proxy(mp_config("<routes><route id=\"start\">" + frontend(9000, rand_threads() + "<timeout ip=\"*\">9000</timeout>") +
        "<filter type=\"cgi\">" + conf + "</filter><filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    if (docroot.empty())
        docroot = ".";
    bool rel = docroot != ".";
    if (sysfail)
    {
        fork_fail_den = 1 + draw(ST_FAULT, 4);
        if (chance(ST_FAULT, 1, 2))
            K.max_fds = fds0 + nc + draw(ST_FAULT, 4);
    }
    i64 bound = (nc + 1) * 260 * SEC + margin();
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            HClient h(a, strf("10.1.0.%u", i + 1));
            h.timeout = bound;
            int nops = 1 + draw_a(ST_OP, a, 8);
            for (int k = 0; k < nops && !stopped; k++)
            {
                if (op_skipped(a, std::min(k, 11)))
                    continue;
                auto p = std::make_shared<Plan>();
                p->id = (int) plans.size();
                plans.push_back(p);
                unsigned w = draw_a(ST_OP, a, 16);
                p->prog = w >= 15 ? 2 : w >= 11 && rel ? 1 : 0;
                p->kind = draw_a(ST_OP, a, 2) ? draw_a(ST_OP, a, EMPTY)
                    : draw_a(ST_OP, a, stalls ? KINDS : STALL);
                static const size_t sizes[] = { 10, 0, 200, 511, 512, 513, 1500, 6000, 70000 };
                size_t ob = sizes[draw_a(ST_OP, a, 9)], ib = 0;
                if (draw_a(ST_OP, a, 2) || p->kind == CAT)
                    ib = sizes[draw_a(ST_OP, a, 9)];
                if (K.pipe_cap < 4096 && ob > 10000)
                    ob = 7000;
                if (K.pipe_cap < 4096 && ib > 10000)
                    ib = 7000;
                else if (ib > 10000 && draw_a(ST_OP, a, 2))
                    ib = 140000;
                p->method = ib ? draw_a(ST_OP, a, 4) == 3 ? "PUT" : "POST" : draw_a(ST_OP, a, 6) == 5 ? "DELETE" : "GET";
                p->body = text(1000 + p->id, ib);
                if (ib && draw_a(ST_OP, a, 4) != 3)
                    p->ctype = "application/x-test";
                if (draw_a(ST_OP, a, 3) == 2)
                    p->cookie = strf("c=%d", p->id);
                if (draw_a(ST_OP, a, 3) == 2)
                    p->agent = strf("agent %d", p->id);
                p->out = text(p->id, ob);
                if (p->kind == CUT && ob < 2)
                    p->out = text(p->id, 2);
                if (p->kind == PIECES || p->kind == SLOW)
                {
                    int np = 1 + draw_a(ST_OP, a, 5);
                    for (int x = 0; x < np; x++)
                    {
                        i64 d = p->kind == SLOW ? (20 + draw_a(ST_OP, a, 30)) * SEC : draw_a(ST_OP, a, 2000) * MS;
                        p->work += d;
                        p->pieces.push_back({ 1 + draw_a(ST_OP, a, 600), d });
                    }
                }
                if (p->kind == EARLYOUT)
                    p->work = draw_a(ST_OP, a, 5000) * MS;
                if (p->kind == CAT)
                    p->out = p->body;
                static const char *scr[] = { "/cgi/a", "/cgi/rel", "/gone" };
                p->script = scr[p->prog];
                static const char *inf[] = { "", "/", "/x/y", "/%41b", "/x;y=1" };
                p->info = inf[draw_a(ST_OP, a, 5)];
                p->query = strf("id=%d", p->id);
                if (draw_a(ST_OP, a, 3) == 2)
                    p->query = "a=b?c&" + p->query + "&d=%26";
                p->uri = p->script + p->info + "?" + p->query;
                bool keep = draw_a(ST_OP, a, 4) != 3;
                std::string msg = p->method + " " + p->uri + " HTTP/1.1\r\nHost: proxy\r\n" +
                    (p->cookie.empty() ? "" : "Cookie: " + p->cookie + "\r\n") +
                    (p->agent.empty() ? "" : "User-Agent: " + p->agent + "\r\n") +
                    (p->ctype.empty() ? "" : "Content-Type: " + p->ctype + "\r\n") +
                    (keep ? "" : "Connection: close\r\n") +
                    (ib ? strf("Content-Length: %zu\r\n\r\n", ib) + p->body : "\r\n");
                if (!h.open && !h.connect())
                {
                    if (stopped || sysfail)
                        break;
                    violation("no-connect", "client %u", a);
                }
                if (verbose())
                    sim::log("client %u: plan %d kind %d out %zu in %zu %s %s", a, p->id, p->kind, p->out.size(), ib,
                             p->method.c_str(), p->uri.c_str());
                i64 t0 = now();
                h.st.write(msg, now() + h.timeout);
                if (leave && draw_a(ST_OP, a, 6) == 5)
                {
                    count("fault.client_leaves");
                    sleep_us(draw_a(ST_OP, a, 3000) * MS);
                    h.close();
                    continue;
                }
                Resp r = h.recv();
                if (stopped)
                    break;
                auto who = [&] { return strf("client %u plan %d kind %d %s %s", a, p->id, p->kind,
                                             p->method.c_str(), p->uri.c_str()); };
                if (!r.ok())
                {
                    if (sysfail && r.closed())
                    {                        // not accepted
                        h.close();
                        sleep_us(SEC);
                        continue;
                    }
                    violation("no-response", "%s: %s after %lld s", who().c_str(), r.show().c_str(),
                              (long long) ((now() - t0) / SEC));
                }
                bool fine = p->kind < EMPTY && p->prog != 2;
                if (fine && sysfail && p->runs == 0 && r.http_code >= 400)
                    count("probe.cgi_refused_without_resources");
                else if (fine)
                {
                    if (r.http_code != 200 || r.body != p->out || r.headers["x-id"] != strf("%d", p->id))
                        violation("wrong-response", "%s: code %d, id '%s', %zu bytes, want 200 and %zu bytes: %s",
                                  who().c_str(), r.http_code, r.headers["x-id"].c_str(), r.body.size(),
                                  p->out.size(), r.body.substr(0, 80).c_str());
                    if (p->runs != 1 || !p->done)
                        violation("wrong-response", "%s: answered, but program ran %d times, end reached %d",
                                  who().c_str(), p->runs, p->done);
                    count("probe.cgi_output");
                }
                else
                {
                    if (r.http_code < 400)
                        violation("no-error", "%s: code %d: %s", who().c_str(), r.http_code,
                                  r.body.substr(0, 80).c_str());
                    count("probe.cgi_error");
                }
                if (!keep || r.http_code == 400 || !strcasecmp(r.headers["connection"].c_str(), "close"))
                {
                    if (!keep && r.http_code >= 400)
                    {
                        h.timeout = bound;
                        Resp r2 = h.recv();
                        if (!r2.closed() && !stopped)
                            violation("left-open", "%s: %s", who().c_str(), r2.show().c_str());
                    }
                    h.close();
                }
            }
            h.close();
        });
    if (term)
    {
        sleep_us(draw(ST_FAULT, 20000) * MS);
        std::map<int, int> running;
        stopped = true;
        term_at = now();
        raise_signal(SIGTERM);
        block("exit", [] { return proxy_exited(); }, now() + margin() + 5 * SEC);
        if (!proxy_exited())
            violation("no-exit", "still there after SIGTERM");
        sleep_us(2 * SEC);
        int hard = 0, late = 0;
        for (auto &p : plans)
            if (p->runs && !p->done)
            {
                hard += p->kind == STALLHARD || p->kind == HALFHARD;
                late += p->started >= term_at;
            }
        if (children_running() > hard + late)
            violation("children-left", "%d programs run after SIGTERM ended the proxy", children_running());
        finish();
    }
    cl.wait();
    // those whose clients left
    i64 t = now() + bound;
    while (now() < t && (children_running() || children_zombies()))
        sleep_us(SEC);
    if (children_running() || children_zombies())
        violation("children-left", "%d programs running, %d not waited for", children_running(), children_zombies());
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
    for (auto &p : plans)
        if (p->runs > 1 || (p->prog == 2 && p->runs))
            violation("run-twice", "request %d started %d programs", p->id, p->runs);
}
