#include "env.hpp"
using namespace sim;
SCENARIO(smoke)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static ZServer srv("b1", 210, 1000);
    dns("b1", true);
    srv.start();
    start_proxy(mp_config(
        "<filters></filters><routes><route id=\"start\">" + frontend(9000) +
        "<filter type=\"z3950_client\"><timeout>30</timeout><default_target>b1:210</default_target></filter>"
        "<filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    Clients cl;
    for (unsigned i = 0; i < 3; i++)
        cl.go(100 + i, "client", [=] {
            ZClient c(100 + i, strf("10.1.0.%u", i + 1));
            if (!c.connect()) violation("x", "connect");
            Resp r = c.call(ZClient::b_init("i1"));
            if (!r.init_ok) violation("x", "init %s", r.show().c_str());
            SearchOpt so;
            r = c.call(ZClient::b_search("s1", strf("h%u_c%u", 5 + i, i), so));
            if (r.hits != 5 + i) violation("x", "hits %s", r.show().c_str());
            r = c.call(ZClient::b_present("p1", "default", 1, 3));
            if (r.recs.size() != 3) violation("x", "recs %s", r.show().c_str());
            c.close();
        });
    cl.wait();
}
