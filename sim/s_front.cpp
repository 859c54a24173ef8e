// Frontend limits (C12) and stopping (C22).
#include "zm.hpp"
#include <signal.h>
using namespace sim;

static std::string zt_route(const std::string &fe)
{   // Z39.50 goes to a target, HTTP is answered by a file server
    return mp_config("<routes><route id=\"start\">" + fe +
        "<filter type=\"http_file\"><mimetypes>" +
        memfile("text/plain txt\n") + "</mimetypes>"
        "<area><documentroot>/simfs/www</documentroot><prefix>/www</prefix></area>"
        "</filter>" + zclient() + "</route></routes>");
}
static void files()
{
    fs["/simfs/www/a.txt"].data = "hello";
}
// ---------------------------------------------------------------- C12
SCENARIO(limits)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    files();
    static ZServer srv("b1", 210, 1000);
    std_backend(srv);
    static int total, cmax, hmax, idle, maxrecv;
    total = chance(ST_KNOB, 1, 2) ? 1 + draw(ST_KNOB, 4) : 0;
    cmax = chance(ST_KNOB, 1, 2) ? 2 + draw(ST_KNOB, 5) : 0;
    hmax = chance(ST_KNOB, 1, 2) ? 1 + draw(ST_KNOB, 5) : 0;
    idle = chance(ST_KNOB, 1, 2) ? 60 + draw(ST_KNOB, 2) * 60 : 0;
    maxrecv = chance(ST_KNOB, 1, 3) ? 2000 : 0;
    static bool stat;
    stat = chance(ST_KNOB, 1, 2);
    // addresses 10.1.1.x are limited, 10.1.2.x are not
    std::string x;
    if (total)
        x += strf("<connect-total ip=\"10.1.1.*\">%d</connect-total>", total);
    if (cmax)
        x += strf("<connect-max ip=\"10.1.1.*\">%d</connect-max>", cmax);
    if (hmax)
        x += strf("<http-req-max ip=\"10.1.1.*\">%d</http-req-max>", hmax);
    if (idle)
        x += strf("<timeout ip=\"10.1.1.*\">%d</timeout>", idle);
    if (stat)
        x += "<stat-req>/fn_stat</stat-req>";
    start_proxy(zt_route(frontend(9000, x + rand_threads(), 0,
        maxrecv ? strf("max_recv_bytes=\"%d\"", maxrecv) : "")));
    wait_listen(9000);
    int fds0 = idle_fds();
    static std::map<std::string, std::vector<i64>> conns;  // accepted, per address
    static std::map<std::string, int> open_now;
    // per address one controlling client: what it sees is exactly determined
    Clients cl;
    int na = 1 + draw(ST_KNOB, 3);
    i64 slack = 2 * SEC + 10 * K.lat_max + K.stall_max_ms * 50 * MS;
    for (int i = 0; i < na; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            bool lim = i < 2;
            std::string ip = strf("10.1.%d.%d", lim ? 1 : 2, i + 1);
            std::vector<std::unique_ptr<MClient>> cs;
            std::vector<i64> times, http;
            int nops = 2 + draw_a(ST_OP, a, 12);
            // wait without letting a connection run into the idle timeout
            auto rest = [&](i64 d) {
                while (d > 0)
                {
                    i64 p = std::min<i64>(d, 20 * SEC);
                    sleep_us(p);
                    d -= p;
                    if (d > 0 || p > 10 * SEC)
                        for (auto &c : cs)
                            c->search("s", "b1", "d", uterm(a, 99, 2));
                }
            };
            for (int k = 0; k < nops; k++)
            {
                for (auto &c : cs)
                    c->search("s", "b1", "d", uterm(a, k, 2));
                unsigned op = draw_a(ST_OP, a, 10);
                unsigned arg = draw_a(ST_OP, a, 8);
                if (op_skipped(a, k))
                    continue;
                if (op <= 4)
                {   // one more connection
                    i64 t0 = now();
                    std::unique_ptr<MClient> c(new MClient(a));
                    c->ip = ip;
                    c->pfx = strf("c%u.%d", a, k);
                    c->timeout = 60 * SEC;
                    bool up = c->connect();
                    Resp r;
                    if (up)
                        r = c->call(c->b_init(c->ref()));
                    bool ok = up && r.ok() && r.init_ok;
                    if (up && r.kind == RK_TIMEOUT)
                        violation("no-response", "%s: neither served nor refused",
                                  c->who().c_str());
                    bool over_total = lim && total && (int) cs.size() >= total;
                    // connects within the window, with slack at its edges
                    int must = 0, may = 0;
                    for (i64 t : times)
                    {
                        if (t > t0 - 58 * SEC + slack)
                            must++;
                        if (t > t0 - 62 * SEC - slack)
                            may++;
                    }
                    bool over_must = lim && cmax && must >= cmax;
                    bool over_may = lim && cmax && may >= cmax;
                    if (ok && (over_total || over_must))
                        violation("limit-exceeded", "client %u: connection accepted "
                                  "with %zu open (connect-total %d) and %d made in a "
                                  "minute (connect-max %d)", a, cs.size(), total,
                                  must, cmax);
                    if (!ok && !over_total && !over_may)
                        violation("refused", "client %u: connection refused with %zu "
                                  "open (connect-total %d) and %d made in a minute "
                                  "(connect-max %d): %s", a, cs.size(), total, may,
                                  cmax, r.show().c_str());
                    if (ok)
                    {
                        times.push_back(t0);
                        cs.push_back(std::move(c));
                        count("probe.accepted");
                    }
                    else
                    {
                        c->close();
                        // a connection may count against connect-max without
                        // passing connect-total: not by this frontend
                        count("probe.connection_refused");
                        rest(slack);
                    }
                }
                else if (op == 5 && cs.size())
                {   // one less
                    size_t w = arg % cs.size();
                    cs[w]->bye();
                    cs.erase(cs.begin() + w);
                    rest(slack);
                }
                else if (op == 6 && cs.size())
                {   // still alive and correct
                    size_t w = arg % cs.size();
                    cs[w]->search("s", "b1", "d", uterm(a, k, 4));
                    cs[w]->present("s", 1, 3);
                }
                else if (op == 7)
                {   // let time pass
                    static const int st[] = { 1, 5, 30, 61, 70, 3, 90, 0 };
                    if (arg == 7)
                    {   // all of them must be gone after it
                        sleep_us((lim && idle ? idle : 300) * SEC + 5 * SEC + slack);
                        for (auto &c : cs)
                        {
                            c->timeout = slack;
                            Resp r = c->recv();
                            if (!r.closed())
                                violation("idle", "client %u: connection idle too long, "
                                    "timeout %d, still open", a, idle);
                            c->close();
                            count("probe.idle_closed");
                        }
                        cs.clear();
                    }
                    else
                        rest(st[arg] * SEC);
                }
                else if (op == 8 && cs.size())
                {   // a message that is too long, or just not
                    size_t w = arg % cs.size();
                    SearchOpt o;
                    bool over = arg & 1;
                    o.set = std::string(over ? 5000 : 1200, 'x');
                    Resp r = cs[w]->call(cs[w]->b_search(cs[w]->ref(), "h3_x", o));
                    if (over && maxrecv)
                    {
                        if (!r.closed())
                            violation("limit-exceeded", "client %u: message of more "
                                      "than max_recv_bytes answered: %s", a,
                                      r.show().c_str());
                        cs[w]->close();
                        cs.erase(cs.begin() + w);
                        rest(slack);
                        count("probe.message_too_long");
                    }
                    else if (!r.ok() || r.hits != 3)
                        violation("refused", "client %u: message within limits: %s",
                                  a, r.show().c_str());
                }
                else if (op == 9)
                {   // HTTP: connection limits out of the way first
                    while (cs.size())
                    {
                        cs.back()->bye();
                        cs.pop_back();
                    }
                    sleep_us(slack);
                    if (lim && cmax)
                    {
                        int may = 0;
                        for (i64 t : times)
                            if (t > now() - 64 * SEC - slack)
                                may++;
                        if (may >= cmax)
                            sleep_us(64 * SEC + slack);
                    }
                    HClient h(a, ip);
                    h.timeout = 60 * SEC;
                    times.push_back(now());
                    if (!h.connect())
                        violation("refused", "client %u: http", a);
                    int n = 1 + arg;
                    for (int q = 0; q < n; q++)
                    {
                        i64 t0 = now();
                        bool st = stat && arg == 3 && q == n - 1;
                        Resp r = h.call(h.b_get(st ? "/fn_stat" : "/www/a.txt"));
                        if (st)
                        {
                            if (!r.ok() || r.http_code != 200 ||
                                r.body.find("<frontend_net>") == std::string::npos ||
                                r.body.find("</frontend_net>") == std::string::npos)
                                violation("stat", "client %u: %s", a, r.show().c_str());
                            count("probe.stat_report");
                            break;
                        }
                        int must = 0, may = 0;
                        for (i64 t : http)
                        {
                            if (t > t0 - 58 * SEC + slack)
                                must++;
                            if (t > t0 - 62 * SEC - slack)
                                may++;
                        }
                        bool ok = r.ok() && r.http_code == 200 && r.body == "hello";
                        if (ok && lim && hmax && must >= hmax)
                            violation("limit-exceeded", "client %u: request %d in a "
                                      "minute served, http-req-max %d", a, must + 1,
                                      hmax);
                        if (!ok && !(lim && hmax && may >= hmax))
                            violation("refused", "client %u: %d requests in a minute, "
                                      "http-req-max %d: %s", a, may + 1, hmax,
                                      r.show().c_str());
                        if (!ok)
                        {
                            if (!r.ok() || r.http_code != 500)
                                violation("refusal", "client %u: excess request got "
                                          "%s", a, r.show().c_str());
                            count("probe.http_refused");
                            break;
                        }
                        http.push_back(t0);
                        sleep_us(draw_a(ST_OP, a, 3) * 7 * SEC);
                    }
                    h.close();
                    sleep_us(slack);
                }
            }
            for (auto &c : cs)
                c->bye();
            sleep_us(slack);
        });
    cl.wait();
    if (!wait_fds(fds0, 60 * SEC))
        violation("leak", "%d descriptors after every client left, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
    // full capacity again
    sleep_us(125 * SEC);
    std::vector<std::unique_ptr<MClient>> cs;
    int n = total ? total : 3;
    if (cmax && n > cmax)
        n = cmax;
    for (int i = 0; i < n; i++)
    {
        cs.emplace_back(new MClient(110));
        cs.back()->ip = "10.1.1.1";
        cs.back()->must_connect();
        cs.back()->init();
    }
    for (auto &c : cs)
        c->search("s", "b1", "d", uterm(110, 1, 2));
}
// requests pending when the frontend itself ends a connection
SCENARIO(cutoff)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static HServer web("web", 80, 3000);
    dns("web", true);
    web.handler = [](Z_HTTP_Request *q, int) {
        HServer::Reply r;
        r.body = "slow";
        r.delay = draw(ST_OP, 3) * 300 * MS;
        return r;
    };
    web.start();
    bool stat = chance(ST_KNOB, 1, 2);
    start_proxy(mp_config("<routes><route id=\"start\">" + frontend(9000,
        std::string(stat ? "<stat-req>/fn_stat</stat-req>" :
                    "<http-req-max>3</http-req-max>") + rand_threads()) +
        "<filter type=\"http_client\"><default-host>http://web</default-host>"
        "<max-redirects>0</max-redirects></filter>"
        "<filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    Clients cl;
    int nc = 1 + draw(ST_KNOB, 3);
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            for (int k = 0; k < 2; k++)
            {
                HClient h(a, strf("10.1.0.%d", i + 1 + k * 10));
                h.timeout = 60 * SEC;
                int n = draw_a(ST_OP, a, 4) + (stat ? 0 : 2);
                int gap = draw_a(ST_OP, a, 4);
                if (op_skipped(a, k))
                    continue;
                if (!h.connect())
                    violation("refused", "client %u", a);
                std::string b;
                for (int q = 0; q < n; q++)
                    b += h.b_get(strf("/p%d", q));
                h.st.write(b);
                sleep_us(gap * 100 * MS);
                h.st.write(h.b_get(stat ? "/fn_stat" : "/last"));
                h.st.write(h.b_get("/after"));
                // whole responses only; the connection ends or all are answered
                int got = 0;
                for (;;)
                {
                    Resp r = h.recv();
                    if (r.kind == RK_JUNK)
                        violation("junk", "client %u", a);
                    if (r.kind == RK_TIMEOUT)
                        break;
                    if (!r.ok())
                        break;
                    got++;
                }
                if (got > n + 2)
                    violation("duplicate", "client %u: %d answers to %d requests", a,
                              got, n + 2);
                h.close();
                count("probe.cut_with_pending_requests");
            }
        });
    cl.wait();
    if (!wait_fds(fds0, 400 * SEC))
        violation("leak", "%d descriptors after every client left, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
    HClient h(110, "10.1.0.99");
    h.timeout = 60 * SEC;
    h.connect();
    Resp r = h.call(h.b_get("/x"));
    if (!r.ok() || r.http_code != 200)
        violation("not-serving", "%s", r.show().c_str());
}
// ---------------------------------------------------------------- C22
SCENARIO(stopping)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    static const i64 dm[] = { 0, 5 * MS, 300 * MS, 2 * SEC };
    srv.delay_max = dm[draw(ST_KNOB, 4)];
    std_backend(srv);
    std::string fsec, pt = passthru(&fsec);
    int np = 1 + draw(ST_KNOB, 2);
    std::string fe = "<filter type=\"frontend_net\">" + rand_threads();
    for (int i = 0; i < np; i++)
        fe += strf("<port>@:%d</port>", 9000 + i);
    fe += "</filter>";
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        fe + pt + zclient() + "</route></routes>"));
    for (int i = 0; i < np; i++)
        wait_listen(9000 + i);
    bool term = chance(ST_KNOB, 1, 2);
    static bool sent;
    static i64 t_sig;
    sent = false;
    int nc = draw(ST_KNOB, 5);
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            MClient c(a);
            sleep_us(draw_a(ST_OP, a, 6) * SEC / 2);
            int k = 1 + draw_a(ST_OP, a, 6);
            if (!c.connect(9000 + draw_a(ST_OP, a, np)))
            {
                if (!sent)
                    violation("refused", "client %u cannot connect", a);
                count("probe.refused_while_stopping");
                return;
            }
            // accepted before the signal, and so served to its end
            c.tolerate = true;
            if (!c.init())
            {
                if (!sent)
                    violation("refused", "client %u: init failed", a);
                return;
            }
            c.tolerate = term;
            for (int q = 0; q < k && !c.dead; q++)
            {
                model_ops(c, 1, "b1", q);
                sleep_us(draw_a(ST_OP, a, 3) * SEC);
            }
            if (!c.dead && !term && sent)
                count("probe.session_served_while_stopping");
            c.bye();
        });
    sleep_us(draw(ST_OP, 8) * SEC / 3 + (i64) draw(ST_OP, 1000));
    // before that the default action ends the process
    int sig = term ? SIGTERM : SIGUSR1;
    block("handler", [=] { return signal_handled(sig); }, now() + 10 * SEC);
    sent = true;
    raise_signal(sig);
    t_sig = now();
    if (term)
    {
        if (!block("exit", [] { return proxy_exited(); }, now() + margin() + 5 * SEC))
            violation("no-exit", "still running %.1f s after SIGTERM",
                      (now() - t_sig) / 1e6);
    }
    else
    {
        sleep_us(2 * SEC + 4 * K.lat_max);
        if (!proxy_exited())
        {
            MClient c(110);
            c.timeout = 5 * SEC;
            if (c.connect())
            {
                Resp r = c.call(c.b_init(c.ref()));
                if (r.ok())
                    violation("accepts", "new session served %.1f s after SIGUSR1",
                              (now() - t_sig) / 1e6);
            }
            c.close();
        }
    }
    cl.wait();
    if (!block("exit", [] { return proxy_exited(); }, now() + 60 * SEC + margin()))
        violation("no-exit", "still running %.1f s after the last session ended",
                  60.0);
    if (proxy_exit_code() != 0)
        violation("exit-code", "%d", proxy_exit_code());
}
