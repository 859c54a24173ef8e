// Frontend, worker pool and Z39.50 client: C01..C04, C24.
#include "zm.hpp"
using namespace sim;

// ---------------------------------------------------------------- C01
SCENARIO(answers)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    static const i64 dm[] = { 0, 5 * MS, 300 * MS };
    srv.delay_max = dm[draw(ST_KNOB, 3)];
    std_backend(srv);
    std::string fsec;
    std::string pt = passthru(&fsec);
    bool named_route = chance(ST_KNOB, 1, 3);
    std::string rest = pt + zclient();
    std::string fe = frontend(9000, rand_threads(), 0,
                              named_route ? "route=\"other\"" : "");
    std::string cfg = "<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        fe + (named_route ? "<filter type=\"bounce\"/></route><route id=\"other\">" +
        rest + "</route>" : rest + "</route>") + "</routes>";
    start_proxy(mp_config(cfg));
    wait_listen(9000);
    thread_faults();
    int nc = 1 + draw(ST_KNOB, 5);
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 2);
            for (int k = 0; k < rounds; k++)
            {
                MClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                sleep_us(draw_a(ST_OP, a, 3) * 700);
                c.must_connect();
                c.init();
                model_ops(c, 1 + draw_a(ST_OP, a, 6), "b1", k * 7);
                if (draw_a(ST_OP, a, 4) == 1)
                    pipelined(c, "b1");
                c.quiet(2 * SEC);
                if (draw_a(ST_OP, a, 4) == 1)
                {
                    Resp r;
                    c.go(c.b_close(c.ref()), Z_APDU_close, r);
                }
                c.bye();
            }
        });
    cl.wait();
    // each client session had its own backend session
    std::map<int, std::set<std::string>> who;
    for (auto &r : srv.log)
        if (r.refid.size())
            who[r.conn].insert(r.refid.substr(0, r.refid.find('-')));
    for (auto &w : who)
        if (w.second.size() > 1)
            violation("cross-talk", "backend connection %d carried requests of "
                      "several client sessions", w.first);
}
// ---------------------------------------------------------------- C03
// several requests at once: each is answered, or the session ends, in time
static void badback_batch(MClient &c, int k, i64 one, int others)
{
    unsigned a = c.actor, n = 2 + draw_a(ST_OP, a, 3);
    std::set<std::string> open;
    i64 lim = n * one * (others + 1) + margin(), t0 = now();
    for (unsigned i = 0; i < n; i++)
    {
        std::string b = i == 0 || draw_a(ST_OP, a, 2) ?
            c.b_search(c.ref(), uterm(a, 50 + 5 * k + i, 20)) :
            c.b_scan(c.ref(), "db0", "m", 3, 1);
        open.insert(c.last_ref);
        c.send_raw(b);
    }
    c.timeout = lim;
    while (!open.empty())
    {
        Resp r = c.recv();
        if (r.kind == RK_TIMEOUT || now() - t0 > lim)
            violation("no-response", "%s: %zu of %u pipelined requests unanswered after %.0f s",
                      c.who().c_str(), open.size(), n, (now() - t0) / 1e6);
        if (r.kind == RK_JUNK)
            violation("junk", "%s: undecodable response", c.who().c_str());
        if (!r.ok() || r.which == Z_APDU_close)
        {
            c.dead = true;
            break;
        }
        if (!open.erase(r.refid))
            violation("wrong-refid", "%s: got '%s'", c.who().c_str(), r.refid.c_str());
    }
    count("probe.pipelined_batch");
}
SCENARIO(badback)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer bad("b1", 210, 1000), good("b2", 210, 2000);
    static bool healed;
    healed = false;
    static const unsigned fd[] = { 6, 3, 15 };
    static unsigned fden = fd[draw(ST_KNOB, 3)];
    static bool weird = chance(ST_KNOB, 1, 3);
    static int initmode = draw(ST_KNOB, 6);
    static bool init_faults = chance(ST_KNOB, 1, 2);
    dns("b1", true);
    bad.scan_terms = { "a1", "k9", "m1", "m2", "m3", "m4", "z1" };
    bad.policy = [](BConn &c, BReq &r) {
        if (healed || !chance_a(ST_FAULT, c.actor, 1, fden))
            return B_OK;
        if (r.which == Z_APDU_initRequest && !init_faults)
            return B_OK;
        static const BAct k[] = { B_DELAY, B_CLOSE, B_RESET, B_PARTIAL, B_SILENT,
            B_DIAG, B_GARBAGE, B_CLOSE_APDU, B_SILENT, B_DELAY };
        static const BAct w[] = { B_WRONG_APDU, B_FEWER, B_MORE, B_NORECS, B_SURR,
            B_BADREF, B_NRET_LIE, B_NULLPTR, B_EXTRA, B_CLOSE, B_SILENT };
        if (weird)
            return w[draw_a(ST_FAULT, c.actor, 11)];
        return k[draw_a(ST_FAULT, c.actor, 10)];
    };
    bool down = initmode == 1, hole = initmode == 2;
    if (!down)
        bad.start();
    if (hole)
        net_blackhole("b1", 210, true);
    if (down || hole)
        count(down ? "fault.target_down" : "fault.target_unreachable");
    if (initmode == 3)
    {
        count("fault.dns_failure");
        K.dns_fail_den = 2;
    }
    static const i64 dm[] = { 0, 5 * MS, 300 * MS };
    good.delay_max = dm[draw(ST_KNOB, 3)];
    std_backend(good);
    static const int to[] = { 30, 5, 10 };
    int T = to[draw(ST_KNOB, 3)], CT = to[draw(ST_KNOB, 3)], IT = to[draw(ST_KNOB, 3)];
    bool force_close = chance(ST_KNOB, 1, 4);
    int nb = 1 + draw(ST_KNOB, 3), ng = draw(ST_KNOB, 3);
    int threads = chance(ST_KNOB, 1, 2) ? nb + ng + 1 : 1 + draw(ST_KNOB, 4);
    bool enough = threads > nb + ng;
    bool pipe = chance(ST_KNOB, 1, 3) && K.pipe_cap >= 4096;
    if (pipe && enough)
        threads = 4 * nb + ng + 1;
    std::string fsec;
    start_proxy(mp_config("<filters/><routes><route id=\"start\">" +
        frontend(9000, "", threads) + strf(
        "<filter type=\"z3950_client\"><timeout>%d</timeout>"
        "<connect-timeout>%d</connect-timeout><init-timeout>%d</init-timeout>"
        "<default_target>b1:210</default_target>%s</filter>"
        "<filter type=\"bounce\"/></route></routes>", T, CT, IT,
        force_close ? "<force_close>true</force_close>" : "")));
    wait_listen(9000);
    int fds0 = idle_fds();
    Clients cl;
    for (int i = 0; i < nb; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 3);
            for (int k = 0; k < rounds; k++)
            {
                MClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                c.tolerate = true;
                if (enough)
                    c.max_call = (T + CT + IT) * SEC + margin();
                c.must_connect();
                if (!weird)
                {
                    if (c.init("", "", true, "b1:210"))
                    {
                        if (enough)
                            c.max_call = (T + 2) * SEC + margin();
                        model_ops(c, 1 + draw_a(ST_OP, a, 4), "b1", k * 5);
                        if (!c.dead && pipe)
                            badback_batch(c, k, (T + 2) * SEC, enough ? 1 : nb + ng);
                    }
                    c.bye();
                    continue;
                }
                // the backend does odd things: anything but silence will do
                c.timeout = (CT + IT + T) * SEC * (enough ? 1 : nb + ng) + margin();
                for (int q = 0; q < 4; q++)
                {
                    std::string b = q == 0 ?
                        c.b_init(c.ref(), "", "", true, 3, "b1:210") : q == 1 ?
                        c.b_search(c.ref(), uterm(a, k, 20)) : q == 2 ?
                        c.b_present(c.ref(), "default", 1, 5) :
                        c.b_scan(c.ref(), "db0", "m", 3, 1);
                    Resp r = c.call(b);
                    if (r.kind == RK_TIMEOUT)
                        violation("no-response", "%s: nothing within %.0f s",
                                  c.who().c_str(), c.timeout / 1e6);
                    if (!r.ok() || r.which == Z_APDU_close)
                        break;
                }
                c.bye();
            }
        });
    for (int i = 0; i < ng; i++)
        cl.go(105 + i, "good", [=] {
            unsigned a = 105 + i;
            MClient c(a);
            if (enough && K.dns_fail_den == 0)
                c.max_call = margin() + good.delay_max;
            c.must_connect();
            if (K.dns_fail_den)
                c.tolerate = true;
            if (!c.init("", "", true, "b2:210"))
                return;
            c.tolerate = false;
            for (int k = 0; k < 4; k++)
            {
                model_ops(c, 2, "b2", k * 2);
                sleep_us(draw_a(ST_OP, a, 4) * 2 * SEC);
            }
            c.quiet(1 * SEC);
            c.bye();
            count("probe.healthy_session_next_to_failing");
        });
    cl.wait();
    // heal
    healed = true;
    K.dns_fail_den = 0;
    if (down)
        bad.start();
    if (hole)
        net_blackhole("b1", 210, false);
    MClient c(110);
    c.must_connect();
    c.init("", "", true, "b1:210");
    model_ops(c, 3, "b1");
    c.bye();
    if (!wait_fds(fds0, 120 * SEC))
        violation("leak", "%d descriptors, %d at start: %s", open_fds(), fds0,
                  list_fds().c_str());
}
// ---------------------------------------------------------------- C02
static std::string oddnum_apdu(MClient &c, unsigned a)
{
    static const long long odd[] = { 0, -1, 1, 2147483647LL, -2147483648LL, 100000,
        4294967297LL, 9223372036854775807LL, -9223372036854775807LL, 20 };
    auto n = [&] { return odd[draw_a(ST_OP, a, 10)]; };
    static const char *syn[] = { "xml", "usmarc", "", "opac", "grs-1" };
    const char *sy = syn[draw_a(ST_OP, a, 5)];
    SearchOpt o;
    switch (draw_a(ST_OP, a, 12))
    {
    case 0:
        return c.b_present(c.ref(), "default", n(), n(), sy, draw_a(ST_OP, a, 2) ? "F" : "");
    case 1:
        o.small = (int) n(); o.large = (int) n(); o.medium = (int) n();
        o.syntax = sy;
        return c.b_search(c.ref(), uterm(a, c.n, 30), o);
    case 2:
        return c.b_scan(c.ref(), "d", "m", (int) n(), (int) n(), draw_a(ST_OP, a, 2),
                        (int) n());
    case 3:
        return c.b_sort(c.ref(), "default", "x", "1=4 ia");
    case 4:
        return c.b_delete(c.ref(), "default");
    case 5:
        return c.b_es(c.ref());
    case 6:
        o.dbs.clear();
        for (unsigned i = 0; i < draw_a(ST_OP, a, 4); i++)
            o.dbs.push_back(std::string(i * 300, 'x'));
        return c.b_search(c.ref(), uterm(a, c.n, 3), o);
    case 7:
        o.set = std::string(1 + draw_a(ST_OP, a, 5000), 's');
        return c.b_search(c.ref(), uterm(a, c.n, 3), o);
    case 8:
        o.replace = false;
        return c.b_search(c.ref(), uterm(a, c.n, 3), o);
    case 9:
        return c.b_init(c.ref(), draw_a(ST_OP, a, 2) ? "u" : "", "p", draw_a(ST_OP, a, 2),
                        (int) draw_a(ST_OP, a, 4));
    case 10:
    {   // any APDU at all with default contents
        static const int w[] = { Z_APDU_initResponse, Z_APDU_searchResponse,
            Z_APDU_presentResponse, Z_APDU_deleteResultSetResponse,
            Z_APDU_accessControlRequest, Z_APDU_accessControlResponse,
            Z_APDU_resourceControlRequest, Z_APDU_resourceControlResponse,
            Z_APDU_triggerResourceControlRequest, Z_APDU_resourceReportRequest,
            Z_APDU_resourceReportResponse, Z_APDU_scanResponse,
            Z_APDU_sortResponse, Z_APDU_segmentRequest,
            Z_APDU_extendedServicesResponse, Z_APDU_close,
            Z_APDU_deleteResultSetRequest };
        Odr o2;
        int k = w[draw_a(ST_OP, a, 17)];
        Z_APDU *p = zget_APDU(o2, k);
        std::string s = p ? o2.encode(p) : "";
        return s.size() ? s : c.b_close(c.ref());
    }
    default:
        return c.b_close(c.ref());
    }
}
static std::string valid_apdu(MClient &c, unsigned a)
{
    switch (draw_a(ST_OP, a, 6))
    {
    case 0: return c.b_search(c.ref(), uterm(a, c.n, 7));
    case 1: return c.b_init(c.ref());
    case 2: return c.b_present(c.ref(), "default", 1, 3);
    case 3: return c.b_scan(c.ref(), "d", "m", 3, 1);
    case 4: return HClient::b_get("/x?version=1.1&operation=searchRetrieve&query=a");
    default: return HClient::b_post("/x", "<a/>", true, "Content-Type: text/xml\r\n");
    }
}
static std::string mutate(std::string s, unsigned a)
{
    switch (draw_a(ST_OP, a, 5))
    {
    case 0:
        for (unsigned i = 0, n = 1 + draw_a(ST_OP, a, 4); i < n && s.size(); i++)
            s[draw_a(ST_OP, a, (unsigned) s.size())] = (char) draw_a(ST_OP, a, 256);
        break;
    case 1:
        s.resize(draw_a(ST_OP, a, (unsigned) s.size()));
        break;
    case 2:
        if (s.size() > 2)
            s.erase(draw_a(ST_OP, a, (unsigned) s.size()),
                    1 + draw_a(ST_OP, a, 3));
        break;
    case 3:
        s.insert(draw_a(ST_OP, a, (unsigned) s.size() + 1),
                 std::string(1 + draw_a(ST_OP, a, 40), (char) draw_a(ST_OP, a, 256)));
        break;
    default:
        if (s.size() > 6)
            s[1 + draw_a(ST_OP, a, 5)] ^= (char) (1 << draw_a(ST_OP, a, 8));
    }
    return s;
}
void hostile(unsigned a, int port, int rounds)
{
    for (int k = 0; k < rounds; k++)
    {
        MClient c(a);
        c.pfx = strf("x%u.%d", a, k);
        c.timeout = (1 + draw_a(ST_OP, a, 4)) * SEC;
        bool init = draw_a(ST_OP, a, 4) != 1;
        if (op_skipped(a, k))
            continue;
        if (!c.connect(port))
            continue;
        if (init)
        {
            c.send_raw(c.b_init(c.ref()));
            if (draw_a(ST_OP, a, 2) == 0)
                if (!c.recv().ok())
                {
                    c.close();
                    continue;
                }
        }
        int n = draw_a(ST_OP, a, 6);
        bool alive = true;
        for (int q = 0; q < n && alive; q++)
        {
            std::string s;
            switch (draw_a(ST_OP, a, 4))
            {
            case 0: s = valid_apdu(c, a); break;
            case 1: s = oddnum_apdu(c, a); break;
            case 2: s = mutate(valid_apdu(c, a), a); count("fault.mutated_pdu"); break;
            default:
                for (unsigned i = 0, m = 1 + draw_a(ST_OP, a, 60); i < m; i++)
                    s += (char) draw_a(ST_OP, a, 256);
                count("fault.garbage");
            }
            alive = c.send_raw(s);
            if (alive && draw_a(ST_OP, a, 3) == 0)
            {
                Resp r = c.recv();
                if (!r.ok() && r.kind != RK_TIMEOUT)
                    alive = false;
            }
        }
        switch (draw_a(ST_OP, a, 4))
        {
        case 0: c.close(); break;
        case 1: c.reset(); count("fault.client_reset"); break;
        case 2: sleep_us(draw_a(ST_OP, a, 2000)); c.close(); break;
        default:
            env_shutdown_wr(c.st.s);
            count("fault.client_half_close");
            sleep_us(draw_a(ST_OP, a, 3) * SEC);
            c.close();
        }
        count("fault.hostile_session");
    }
}
SCENARIO(hostile)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    static const i64 dm[] = { 0, 5 * MS, 300 * MS };
    srv.delay_max = dm[draw(ST_KNOB, 3)];
    std_backend(srv);
    std::string fsec;
    std::string pt = passthru(&fsec);
    bool msg = chance(ST_KNOB, 1, 3);
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        frontend(9000, std::string(msg ? "<message>FN</message>" : "") +
                 rand_threads(), 0, chance(ST_KNOB, 1, 4) ?
                 "max_recv_bytes=\"3000\"" : "") + pt + zclient() +
        "</route></routes>"));
    wait_listen(9000);
    thread_faults();
    int fds0 = idle_fds();
    Clients cl;
    int nh = 1 + draw(ST_KNOB, 4), ng = 1 + draw(ST_KNOB, 2);
    for (int i = 0; i < nh; i++)
        cl.go(100 + i, "hostile", [=] {
            hostile(100 + i, 9000, 1 + draw_a(ST_OP, 100 + i, 4)); });
    for (int i = 0; i < ng; i++)
        cl.go(105 + i, "good", [=] {
            unsigned a = 105 + i;
            MClient c(a);
            c.must_connect();
            c.init();
            model_ops(c, 3 + draw_a(ST_OP, a, 5), "b1");
            c.quiet(SEC);
            c.bye();
            count("probe.control_session");
        });
    cl.wait();
    MClient c(110);
    c.must_connect();
    c.init();
    model_ops(c, 3, "b1");
    c.bye();
    if (!wait_fds(fds0, 400 * SEC))
        violation("leak", "%d descriptors, %d at start: %s", open_fds(), fds0,
                  list_fds().c_str());
}
// ---------------------------------------------------------------- C04
SCENARIO(sessions)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    static const i64 dm[] = { 0, 5 * MS, 300 * MS, 3 * SEC };
    srv.delay_max = dm[draw(ST_KNOB, 4)];
    std_backend(srv);
    std::string fsec;
    std::string pt = passthru(&fsec);
    std::string auth;
    bool with_auth = chance(ST_KNOB, 1, 4);
    if (with_auth)
        auth = "<filter type=\"auth_simple\"><userRegister>" +
            memfile("u1:p1:db0,db1,Default\n") +
            "</userRegister></filter>";
    static const int idle = chance(ST_KNOB, 1, 3) ? 20 : 300;
    bool fc = chance(ST_KNOB, 1, 3);
    start_proxy(mp_config("<filters>" + fsec + "</filters><routes><route id=\"start\">" +
        frontend(9000, rand_threads() + strf("<timeout>%d</timeout>", idle)) +
        auth + pt + zclient(fc ? "<force_close>true</force_close>" : "") +
        "</route></routes>"));
    wait_listen(9000);
    thread_faults();
    int fds0 = idle_fds();
    Clients cl;
    int nc = 1 + draw(ST_KNOB, 6);
    static int live;   // sessions whose client has not gone
    live = 0;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 4);
            for (int k = 0; k < rounds; k++)
            {
                MClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                sleep_us(draw_a(ST_OP, a, 4) * 3 * MS);
                unsigned how = draw_a(ST_OP, a, 9);
                int nops = draw_a(ST_OP, a, 4);
                if (op_skipped(a, k))
                    continue;
                c.must_connect();
                if (how == 1)
                {   // leave before anything
                    c.close();
                    continue;
                }
                if (how == 2)
                {   // leave with init, and perhaps more, in flight
                    std::string b = c.b_init(c.ref(), "u1", "p1");
                    for (int q = 0; q < nops; q++)
                        b += c.b_search(c.ref(), uterm(a, c.n, 5));
                    c.send_raw(b);
                    sleep_us(draw_a(ST_OP, a, 3) * K.lat_max);
                    if (draw_a(ST_OP, a, 2))
                        c.reset();
                    else
                        c.close();
                    count("fault.client_gone_in_flight");
                    continue;
                }
                if (with_auth && how == 3)
                {   // refused by a filter
                    Resp r = c.call(c.b_init(c.ref(), "u1", "wrong"));
                    if (!r.ok() || r.init_ok)
                        violation("auth", "%s: %s", c.who().c_str(), r.show().c_str());
                    if (draw_a(ST_OP, a, 2))
                        sleep_us(SEC);
                    c.close();
                    continue;
                }
                c.init("u1", "p1");
                model_ops(c, nops, "b1", 4 + (k & 3) * 2);
                if (how == 4)
                {   // leave with a request in flight
                    c.send_raw(c.b_search(c.ref(), uterm(a, c.n, 5)));
                    sleep_us(draw_a(ST_OP, a, 4) * (K.lat_max + srv.delay_max / 3));
                    if (draw_a(ST_OP, a, 2))
                        c.reset();
                    else
                        c.close();
                    count("fault.client_gone_in_flight");
                }
                else if (how == 5)
                {
                    Resp r;
                    c.go(c.b_close(c.ref()), Z_APDU_close, r);
                    c.close();
                }
                else if (how == 6 && with_auth)
                {   // search refused: the filter closes the session
                    SearchOpt o;
                    o.dbs = { "forbidden" };
                    Resp r = c.call(c.b_search(c.ref(), uterm(a, c.n, 3), o));
                    if (!r.ok() || !r.ndiag)
                        violation("auth", "%s: %s", c.who().c_str(), r.show().c_str());
                    r = c.recv();
                    if (!r.closed())
                        violation("not-closed", "%s: %s", c.who().c_str(),
                                  r.show().c_str());
                    c.close();
                    count("probe.session_closed_by_filter");
                }
                else if (how == 7 && idle == 20)
                {   // idle until the proxy hangs up
                    c.timeout = (idle + 10) * SEC + margin();
                    Resp r = c.recv();
                    if (!r.closed())
                        violation("idle", "client %u: idle connection still open "
                                  "after %d s: %s", a, idle, r.show().c_str());
                    c.close();
                    count("probe.idle_closed");
                }
                else if (how == 8)
                {   // the target goes away while the session is idle
                    if (!srv.conns.empty() && nc == 1)
                        srv.drop_all();
                    c.close();
                }
                else
                    c.bye();
            }
        });
    cl.wait();
    if (!wait_fds(fds0, 60 * SEC + srv.delay_max + margin()))
        violation("leak", "%d descriptors after every client left, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
    if (!block("backend", [] { return srv.open_conns() == 0; }, now() + 10 * SEC))
        violation("leak", "%d backend connections open after every client left",
                  srv.open_conns());
    std::map<int, std::set<std::string>> who;
    for (auto &r : srv.log)
        if (r.refid.size())
            who[r.conn].insert(r.refid.substr(0, r.refid.find('-')));
    for (auto &w : who)
        if (w.second.size() > 1)
            violation("cross-talk", "backend connection %d carried requests of "
                      "several client sessions", w.first);
}
// ---------------------------------------------------------------- C24
SCENARIO(maxsock)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer s1("b1", 210, 1000), s2("b2", 210, 2000);
    static const i64 dm[] = { 0, 5 * MS, 300 * MS, 2 * SEC };
    s1.delay_max = s2.delay_max = dm[draw(ST_KNOB, 4)];
    static int maxs = draw(ST_KNOB, 4);     // 0: no limit
    static int mst = 2 + draw(ST_KNOB, 3) * 4;
    static int mode = draw(ST_KNOB, 4);     // 1: no default target 2: forced
    auto cap = [](ZServer &s) {
        s.on_req = [&s](BConn &c, BReq &r) {
            if (maxs && open_conns_to(s.host, s.port) > maxs)
                violation("too-many", "%d connections to %s, max-sockets %d",
                          open_conns_to(s.host, s.port), s.host.c_str(), maxs);
            if (r.which == Z_APDU_initRequest && c.nreq > 1)
                violation("second-init", "conn %d of %s", c.id, s.host.c_str());
            if (r.which != Z_APDU_initRequest && c.nreq == 1)
                violation("no-init", "conn %d of %s: first request is %d", c.id,
                          s.host.c_str(), r.which);
            if (r.vhost.size() && mode != 2)
                violation("vhost", "conn %d of %s: target name forwarded", c.id,
                          s.host.c_str());
        };
    };
    cap(s1);
    cap(s2);
    std_backend(s1);
    std_backend(s2);
    int nc = 1 + draw(ST_KNOB, 6);
    bool cip = chance(ST_KNOB, 1, 3);
    start_proxy(mp_config("<routes><route id=\"start\">" +
        frontend(9000, "", chance(ST_KNOB, 1, 3) ? 1 + draw(ST_KNOB, 3) : nc + 1) +
        "<filter type=\"z3950_client\"><timeout>30</timeout>" +
        (maxs ? strf("<max-sockets>%d</max-sockets>"
                     "<max-sockets-timeout>%d</max-sockets-timeout>", maxs, mst) : "") +
        (mode == 2 ? "<force_target>b1:210</force_target>" :
         mode == 1 ? "" : "<default_target>b1:210</default_target>") +
        (cip ? "<client_ip>true</client_ip>" : "") +
        "</filter><filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    static int refused, served;
    refused = served = 0;
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            int rounds = 1 + draw_a(ST_OP, a, 3);
            for (int k = 0; k < rounds; k++)
            {
                MClient c(a);
                c.pfx = strf("c%u.%d", a, k);
                sleep_us(draw_a(ST_OP, a, 3) * 500 * MS);
                unsigned t = draw_a(ST_OP, a, 6);
                i64 hold = draw_a(ST_OP, a, 4) * SEC;
                int nops = draw_a(ST_OP, a, 3);
                if (op_skipped(a, k))
                    continue;
                std::string vh = t == 1 || t == 2 ? "b2:210" : t == 3 ? "b1:210" :
                    t == 4 ? "b1:210+b2:210" : "";
                c.must_connect();
                Resp r;
                if (!c.go(c.b_init(c.ref(), "", "", true, 3, vh),
                          Z_APDU_initResponse, r))
                    return;
                std::string host = mode == 2 || t == 3 ? "b1" : t == 1 || t == 2 ?
                    "b2" : "b1";
                bool no_target = (mode == 1 && vh.empty()) || (mode != 2 && t == 4);
                if (no_target)
                {
                    if (r.init_ok)
                        violation("no-target", "%s: init accepted without a target",
                                  c.who().c_str());
                    c.close();
                    continue;
                }
                if (!r.init_ok)
                {
                    if (!maxs)
                        violation("refused", "%s: %s", c.who().c_str(),
                                  r.show().c_str());
                    refused++;
                    count("probe.max_sockets_refusal");
                    if (nc <= maxs)
                        violation("refused", "%s: %d clients, max-sockets %d: %s",
                                  c.who().c_str(), nc, maxs, r.show().c_str());
                    c.close();
                    // until the proxy has seen it
                    sleep_us(SEC + 4 * K.lat_max);
                    continue;
                }
                served++;
                model_ops(c, nops, host, 3 + k * 3);
                if (hold)
                    c.quiet(hold);
                c.bye();
                // a slot is free once the proxy has seen the end
                sleep_us(2 * SEC + 4 * K.lat_max + K.stall_max_ms * MS * 20);
            }
        });
    cl.wait();
    if (!wait_fds(fds0, 60 * SEC))
        violation("leak", "%d descriptors after every client left, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
    // every slot is usable again
    int n = maxs ? maxs : 2;
    std::vector<std::unique_ptr<MClient>> cs;
    for (int i = 0; i < n; i++)
    {
        cs.emplace_back(new MClient(106 + i));
        cs.back()->must_connect();
        cs.back()->init("", "", true, "b1:210");
        cs.back()->search("s", "b1", "d", uterm(106 + i, 0, 2));
    }
    if (maxs)
    {
        MClient c(110);
        c.must_connect();
        Resp r;
        i64 t0 = now();
        c.go(c.b_init(c.ref(), "", "", true, 3, "b1:210"), Z_APDU_initResponse, r);
        if (r.init_ok)
            violation("too-many", "session %d accepted, max-sockets %d", n + 1, maxs);
        if (now() - t0 > mst * SEC + margin())
            violation("late", "refused after %.1f s, max-sockets-timeout %d",
                      (now() - t0) / 1e6, mst);
        count("probe.max_sockets_full");
    }
    for (auto &c : cs)
        c->bye();
    std::map<std::string, std::set<std::string>> who;
    for (ZServer *s : { &s1, &s2 })
        for (auto &r : s->log)
            if (r.refid.size())
            {
                std::string c = r.refid.substr(0, r.refid.find('-'));
                std::string id = strf("%s.%d", s->host.c_str(), r.conn);
                who[id].insert(c);
                who["session " + c].insert(id);
            }
    for (auto &w : who)
        if (w.second.size() > 1)
            violation("affinity", "%s uses %zu peers", w.first.c_str(),
                      w.second.size());
}
