// C19: HTTP proxying and rewriting.
#include "zm.hpp"
#include <algorithm>
using namespace sim;

namespace {
struct Ex {                          // one exchange
    std::string id, method, host, path, body;      // as the origin must see it
    std::string xff;                               // "" : not checked
    std::string link;                              // Link header the client must get
    int code = 200;
    std::string resp, want;                        // sent by the origin, wanted by the client
    std::string type;
    bool chunked = false, hop = false, nolen = false;
    unsigned seg = 0;
    // outcome
    int seen = 0, hops = 0;
    bool faulted = false;
    std::string link_sent, star, want_star;
};
}
static std::map<std::string, Ex> ex;
static const int NO = 2;
static HServer *O[NO];
static unsigned fden;
static std::string proxy_via;        // upstream proxy, if any
static bool rw;

static std::string hval(Z_HTTP_Request *h, const char *n)
{
    const char *v = z_HTTP_header_lookup(h->headers, n);
    return v ? v : "";
}
// find the exchange a path belongs to
static Ex *of_path(const std::string &path)
{
    size_t p = path.find("/x");
    if (p == std::string::npos)
        return 0;
    size_t e = path.find_first_of("/?", p + 1);
    auto it = ex.find(path.substr(p + 1, e == std::string::npos ? e : e - p - 1));
    return it == ex.end() ? 0 : &it->second;
}
static HServer::Reply origin(const std::string &me, bool is_proxy, Z_HTTP_Request *h, unsigned actor)
{
    HServer::Reply r;
    Ex *e = of_path(h->path);
    if (!e)
        violation("unknown-request", "%s got %s %s", me.c_str(), h->method, h->path);
    std::string path = h->path;
    std::string target = is_proxy ? "http://" + e->host : "";
    std::string body(h->content_buf ? h->content_buf : "", h->content_len);
    bool first = e->hop && !e->hops;
    if (first)
    {
        // o1 sends the client on to the right place
        e->hops++;
        r.code = 302;
        r.hdr = "Location: http://" + e->host + e->path + "\r\n";
        count("probe.http_redirect");
        return r;
    }
    e->seen++;
    sim::log("%s: %s %s", me.c_str(), h->method, h->path);
    if (e->seen > 1)
        violation("repeated", "%s: %s %s forwarded twice", me.c_str(), h->method, h->path);
    if (path != target + e->path || e->method != h->method || body != e->body)
        violation("wrong-request", "%s got %s %s body %zu, want %s %s%s body %zu", me.c_str(),
                  h->method, h->path, body.size(), e->method.c_str(), target.c_str(),
                  e->path.c_str(), e->body.size());
    if (!is_proxy && e->host != me)
        violation("wrong-origin", "%s got %s %s, meant for %s", me.c_str(), h->method, h->path,
                  e->host.c_str());
    if (!e->hops && hval(h, "X-Forwarded-For") != e->xff)
        violation("wrong-xff", "%s got %s with '%s', want '%s'", me.c_str(), h->path,
                  hval(h, "X-Forwarded-For").c_str(), e->xff.c_str());
    if (!e->hops && hval(h, "X-Id") != e->id)     // yaz_url drops them when redirected
        violation("wrong-header", "%s got %s with X-Id '%s'", me.c_str(), h->path,
                  hval(h, "X-Id").c_str());
    if (!hval(h, "X-Metaproxy-Proxy").empty() || (rw && !hval(h, "X-Metaproxy-SkipLink").empty()))
        violation("wrong-header", "%s got %s with a private header", me.c_str(), h->path);
    r.code = e->code;
    r.body = e->resp;
    r.hdr = "X-Id: " + e->id + "\r\n";
    if (!e->star.empty())
        r.hdr += "X-Star: " + e->star + "\r\n";
    if (!e->type.empty())
        r.hdr += "Content-Type: " + e->type + "\r\n";
    if (!e->link_sent.empty())
        r.hdr += "Link: " + e->link_sent + "\r\n";
    if (e->chunked)
    {
        r.raw = strf("HTTP/1.1 %d X\r\n", e->code) + r.hdr + "Transfer-Encoding: chunked\r\n\r\n";
        unsigned n = 1 + draw_a(ST_FAULT, actor, 40);
        for (size_t i = 0; i < r.body.size(); i += n)
        {
            std::string c = r.body.substr(i, n);
            r.raw += strf("%zx\r\n", c.size()) + c + "\r\n";
        }
        r.raw += "0\r\n\r\n";
    }
    if (fden && chance_a(ST_FAULT, actor, 1, fden))
    {
        static const BAct v[] = { B_CLOSE, B_RESET, B_PARTIAL, B_GARBAGE, B_DELAY };
        r.act = v[draw_a(ST_FAULT, actor, 5)];
        r.delay = r.act == B_DELAY ? draw_a(ST_FAULT, actor, 20) * SEC : 0;
        if (r.act != B_DELAY)
            e->faulted = true;
        if (r.act == B_PARTIAL)
        {
            // libyaz takes a cut header section or chunked body for a
            // whole response: cut inside the body only
            if (e->chunked || r.body.empty())
                r.act = B_CLOSE;
            else
            {
                r.raw = strf("HTTP/1.1 %d X\r\n", r.code) + r.hdr +
                    strf("Content-Length: %zu\r\n\r\n", r.body.size()) +
                    r.body.substr(0, draw_a(ST_FAULT, actor, r.body.size()));
                r.act = B_OK;
                count("fault.origin_partial");
                r.close = true;
                return r;
            }
        }
    }
    r.close = draw_a(ST_FAULT, actor, 4) == 3;
    return r;
}
SCENARIO(http)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    static const unsigned fd[] = { 0, 0, 8, 3 };
    fden = fd[draw(ST_KNOB, 4)];
    static const int ports[] = { 80, 8080 };
    for (int i = 0; i < NO; i++)
    {
        std::string host = strf("o%d", i + 1);
        std::string hp = i ? strf("%s:%d", host.c_str(), ports[i]) : host;
        O[i] = new HServer(host, ports[i], 1000 + 500 * i);
        unsigned base = O[i]->actor_base;
        O[i]->handler = [=](Z_HTTP_Request *h, int c) { return origin(hp, false, h, base + c + 1); };
        O[i]->start();
    }
    dns("o4", true);                 // nobody listens there
    static HServer up("up", 3128, 3000);
    up.handler = [](Z_HTTP_Request *h, int c) { return origin("up", true, h, 3001 + c); };
    up.start();
    unsigned via = draw(ST_KNOB, 4);               // 3: configured upstream proxy
    bool xff = chance(ST_KNOB, 1, 2), dflt = chance(ST_KNOB, 1, 2);
    int redirects = chance(ST_KNOB, 1, 2) ? 2 : 0;
    rw = chance(ST_KNOB, 1, 2);
    bool logf = chance(ST_KNOB, 1, 5);
    if (via == 3)
        proxy_via = "up:3128";
    std::string cc;
    if (!proxy_via.empty())
        cc += "<proxy>" + proxy_via + "</proxy>";
    if (dflt)
        cc += "<default-host>http://o1</default-host>";
    if (redirects)
        cc += strf("<max-redirects>%d</max-redirects>", redirects);
    if (xff)
        cc += "<x-forwarded-for>true</x-forwarded-for>";
    std::string rwf = "<filter type=\"http_rewrite\"><request><rule name=\"url\"><rewrite "
        "from='(?&lt;proto>https?://)(?&lt;pxhost>[^ /?#]+)/(?&lt;pxpath>[^ /]+)/(?&lt;host>[^ /]+)(?&lt;path>[^ ]*)' "
        "to='${proto}${host}${path}' /></rule>"
        "<content type=\"headers\"><within reqline=\"1\" rule=\"url\"/></content></request>"
        "<response><rule name=\"url\"><rewrite "
        "from='(?&lt;proto>https?://)(?&lt;host>[^/?# &quot;&apos;>]+)/(?&lt;path>[^ &amp;&quot;&apos;>]+)' "
        "to='${proto}${pxhost}/${pxpath}/${host}/${path}' /></rule>"
        "<rule name=\"two\"><rewrite from='^zip:(?&lt;z>[a-c]+)' to='${pxpath}.${z}'/></rule>"
        "<rule name=\"star\"><rewrite from='[a-z]*' to='${pxpath}'/></rule>"
        "<content type=\"headers\"><within header=\"link|location\" rule=\"url\"/>"
        "<within header=\"x-star\" rule=\"star\"/></content>"
        "<content type=\"html\" mime=\"text/html.*\">"
        "<within tag=\"script\" attr=\"#text\" type=\"quoted-literal\" rule=\"url\"/>"
        "<within attr=\"href|src\" rule=\"url,two\"/>"
        "<within attr=\"onclick\" type=\"quoted-literal\" rule=\"url\"/></content>"
        "<content type=\"quoted-literal\" mime=\"text/javascript\"><within rule=\"url\"/></content>"
        "</response></filter>";
    int nc = 1 + draw(ST_KNOB, 5);
    start_proxy(mp_config("<routes><route id=\"start\">" + frontend(9000, "", 0) +
        (logf ? "<filter type=\"log\"><message>H</message><filename>/simfs/h.log</filename>"
         "<category access=\"true\"/></filter>" : "") + (rw ? rwf : "") +
        "<filter type=\"http_client\">" + cc + "</filter><filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            std::string ip = strf("10.1.0.%u", i + 1);
            HClient h(a, ip);
            int n = 0;
            struct Rq { std::string id, bytes; int err = 0; bool keep = true; };
            auto build = [&]() {
                Rq q;
                Ex e;
                e.id = q.id = strf("x%ux%d", a, ++n);
                unsigned o = draw_a(ST_OP, a, 2);
                e.host = o ? "o2:8080" : "o1";
                bool rel = draw_a(ST_OP, a, 3) == 2;
                unsigned bad = draw_a(ST_OP, a, 12);
                if (bad == 10)
                    e.host = "o4:80", q.err = 502;
                if (bad == 11)
                    e.host = "nohost.example", q.err = 502;
                e.path = "/" + e.id + (draw_a(ST_OP, a, 2) ? "/f.html?a=%20b&c=" + e.id : "/");
                static const char *meth[] = { "GET", "GET", "POST", "PUT", "DELETE" };
                unsigned m = draw_a(ST_OP, a, 5);
                e.method = meth[m];
                std::string hdr = "X-Id: " + e.id + "\r\n";
                if (m == 2 || m == 3)
                {
                    unsigned len = draw_a(ST_OP, a, 4);
                    static const unsigned ll[] = { 5, 60, 0, 3000 };
                    for (unsigned k = 0; k < ll[len]; k++)
                        e.body += len == 1 ? (char) k : (char) ('a' + (k * 7 + n) % 26);
                    hdr += strf("Content-Type: application/octet-stream\r\nContent-Length: %zu\r\n",
                                e.body.size());
                }
                std::string mine = draw_a(ST_OP, a, 3) == 2 ? "10.7.7.7" : "";
                if (!mine.empty())
                    hdr += "X-Forwarded-For: " + mine + "\r\n";
                e.xff = xff ? (mine.empty() ? "" : mine + ", ") + ip : mine;
                if (draw_a(ST_OP, a, 5) == 4 && proxy_via.empty())
                    hdr += "X-Metaproxy-Proxy: up:3128\r\n";
                // how the client names the target
                std::string url, hosth = "proxy";
                std::string px = strf("px%u.example", a), pxpath = "p" + e.id.substr(1);
                bool mapped = rw;
                if (rw)
                {
                    if (rel)
                    {
                        url = "/" + pxpath + "/" + e.host + e.path;
                        hosth = px;
                    }
                    else
                        url = "http://" + px + "/" + pxpath + "/" + e.host + e.path;
                }
                else if (rel)
                {
                    url = e.path;
                    e.host = "o1";
                    q.err = dflt ? 0 : 404;
                }
                else
                    url = "http://" + e.host + e.path;
                if (q.err != 404 && proxy_via.empty() && hdr.find("Metaproxy-Proxy") != std::string::npos)
                    q.err = 0;                         // upstream takes it all
                if (!proxy_via.empty() && q.err == 502)
                    q.err = 0;
                // the response
                static const int codes[] = { 200, 200, 404, 500, 201, 304, 204 };
                e.code = codes[draw_a(ST_OP, a, 5)];
                unsigned kind = draw_a(ST_OP, a, 6);
                std::string lh = strf("l%u.example:8%d", draw_a(ST_OP, a, 3), n % 10);
                auto back = [&](const std::string &hp) {
                    return mapped ? "http://" + px + "/" + pxpath + "/" + hp : "http://" + hp;
                };
                bool skip = false;
                if (rw)
                {
                    unsigned s = draw_a(ST_OP, a, 8);
                    if (s == 5)
                    {
                        hdr += "X-Metaproxy-SkipLink: " + e.id + " skipme\r\n";
                        skip = true;
                    }
                    if (s == 6)
                        hdr += "X-Metaproxy-SkipLink: nosuchpage skipme\r\n";
                    if (s == 7)
                    {
                        static const char *badre[] = { "( x", "x (", "*", "[ [", ". \\",
                            "(.+)+(.+)+(.+)+(.+)+# x", ".* (.+)+(.+)+(.+)+(.+)+#" };
                        hdr += std::string("X-Metaproxy-SkipLink: ") + badre[draw_a(ST_OP, a, 7)] + "\r\n";
                    }
                }
                if (draw_a(ST_OP, a, 2))
                {
                    e.link_sent = "<http://" + lh + "/" + e.id + ".css>; rel=x";
                    e.link = "<" + back(lh + "/" + e.id + ".css") + "; rel=x";
                    e.link = rw ? "<" + back(lh + "/" + e.id + ".css") + ">; rel=x" : e.link_sent;
                }
                if (draw_a(ST_OP, a, 4) == 3)
                {
                    static const char *ss[] = { "abc", "12abc", "abc-def", "7" };
                    static const char *ws[] = { "P", "12P", "P-P", "7" };
                    unsigned k = draw_a(ST_OP, a, 4);
                    e.star = ss[k];
                    for (const char *p = rw ? ws[k] : ss[k]; *p; p++)
                        e.want_star += *p == 'P' ? pxpath : std::string(1, *p);
                }
                auto add = [&](const std::string &s, const std::string &w) {
                    e.resp += s;
                    e.want += rw ? w : s;
                };
                auto both = [&](const std::string &s) { add(s, s); };
                unsigned parts = draw_a(ST_OP, a, 6);
                if (kind == 0)
                {
                    e.type = "text/plain";
                    both(e.id + " http://" + lh + "/plain \"http://" + lh + "/plain\"\n");
                    for (unsigned k = 0; k < parts * parts * 40; k++)
                        e.resp += strf("line %u of %s\n", k, e.id.c_str());
                    e.want = e.resp;
                }
                else if (kind == 1 || kind == 5)
                {
                    e.type = kind == 1 ? "text/html" : "text/html; charset=utf-8";
                    both("<html><head><title>" + e.id + "</title></head><body>");
                    for (unsigned k = 0; k < parts; k++)
                    {
                        std::string hp = lh + strf("/%s/%u", e.id.c_str(), k), u = "http://" + hp;
                        switch (draw_a(ST_OP, a, 8))
                        {
                        case 0: add("<a href=\"" + u + "\">", "<a href=\"" + back(hp) + "\">");
                            both("see " + u + " there</a>");
                            break;
                        case 1: add("<img alt='" + u + "' src='" + u + "'/>",
                                    "<img alt='" + u + "' src='" + back(hp) + "'/>");
                            break;
                        case 2: add("<script>var a = \"" + u + "\"; go(" + u + ");</script>",
                                    "<script>var a = \"" + back(hp) + "\"; go(" + u + ");</script>");
                            break;
                        case 3: add("<p onclick=\"go(&quot;" + u + "&quot;)\">p</p>",
                                    "<p onclick=\"go(&quot;" + back(hp) + "&quot;)\">p</p>");
                            break;
                        case 4: both("<!-- " + u + " <a href=\"" + u + "\"> -->");
                            break;
                        case 5: add("<a href=\"http://skipme.example/" + e.id + "\">s</a>",
                                    skip ? "<a href=\"http://skipme.example/" + e.id + "\">s</a>" :
                                    "<a href=\"" + back("skipme.example/" + e.id) + "\">s</a>");
                            break;
                        case 6: add("<a href=\"zip:abczip:abzip:c\">z</a>", "<a href=\"" + pxpath + ".abczip:abzip:c\">z</a>");
                            break;
                        case 7: both("<p>5 &lt; 6 &amp; x</p>\n");
                            break;
                        }
                    }
                    both("</body></html>\n");
                }
                else if (kind == 2)
                {
                    e.type = "text/javascript";
                    for (unsigned k = 0; k < parts; k++)
                        add("u('http://" + lh + "/j.js'); // http://" + lh + "/j.js\n",
                            "u('" + back(lh + "/j.js") + "'); // http://" + lh + "/j.js\n");
                }
                else if (kind == 3)
                {
                    e.type = "text/html";
                    std::string bin = std::string(draw_a(ST_OP, a, 2) ? draw_a(ST_OP, a, 4000) : 0, 'y') +
                        "<a href=\"http://" + lh + "/x\">" + e.id + std::string(draw_a(ST_OP, a, 90), 'z') +
                        std::string(1, '\0');
                    both(bin);
                }
                // kind 4: no body
                e.chunked = e.resp.size() && draw_a(ST_OP, a, 3) == 2;
                e.hop = redirects && e.method == "GET" && !q.err && draw_a(ST_OP, a, 4) == 3;
                if (!redirects && draw_a(ST_OP, a, 8) == 7)
                {
                    e.code = 302;
                    e.link_sent = e.link = "";
                }
                q.keep = draw_a(ST_OP, a, 6) != 5;
                bool v10 = draw_a(ST_OP, a, 6) == 5;
                if (v10)
                    q.keep = false;
                q.bytes = e.method + " " + url + (v10 ? " HTTP/1.0\r\nHost: " : " HTTP/1.1\r\nHost: ") +
                    hosth + "\r\n" + (q.keep || v10 ? "" : "Connection: close\r\n") + hdr +
                    (m == 2 || m == 3 ? "" : "") + "\r\n" + e.body;
                ex[e.id] = e;
                return q;
            };
            auto check = [&](Rq &q, const Resp &r) {
                Ex &e = ex[q.id];
                auto who = [&] { return strf("client %u %s %s%s", a, e.method.c_str(), e.host.c_str(),
                    e.path.c_str()); };
                if (!r.ok())
                    violation("no-response", "%s: %s", who().c_str(), r.show().c_str());
                if (q.err)
                {
                    if (r.http_code != q.err || e.seen)
                        violation("error-code", "%s: %d seen %d, want %d", who().c_str(), r.http_code,
                                  e.seen, q.err);
                    count("probe.http_error");
                    return;
                }
                if (e.faulted && r.http_code == 502)
                {
                    count("probe.http_fault_502");
                    return;
                }
                auto hd = [&](const char *nm) {
                    auto it = r.headers.find(nm);
                    return it == r.headers.end() ? std::string() : it->second; };
                if (r.http_code != e.code || hd("x-id") != e.id)
                    violation("wrong-response", "%s: got %d id '%s'%s, want %d: %s", who().c_str(),
                              r.http_code, hd("x-id").c_str(), e.faulted ? " (origin failed)" : "",
                              e.code, r.body.c_str());
                if (r.body != e.want)
                    violation("wrong-body", "%s: got %zu bytes '%s', want %zu '%s'%s", who().c_str(),
                              r.body.size(), r.body.c_str(), e.want.size(), e.want.c_str(),
                              e.faulted ? " (origin failed)" : "");
                if (hd("link") != e.link || hd("content-type") != e.type)
                    violation("wrong-header", "%s: link '%s' type '%s', want '%s' '%s'", who().c_str(),
                              hd("link").c_str(), hd("content-type").c_str(), e.link.c_str(), e.type.c_str());
                if (hd("x-star") != e.want_star)
                    violation("wrong-header", "%s: x-star '%s' want '%s'", who().c_str(),
                              hd("x-star").c_str(), e.want_star.c_str());
                if (!hd("transfer-encoding").empty())
                    violation("wrong-header", "%s: transfer-encoding", who().c_str());
                if (e.seen != 1)
                    violation("repeated", "%s: forwarded %d times", who().c_str(), e.seen);
                count("probe.http_exact");
            };
            int nops = 1 + draw_a(ST_OP, a, 8);
            for (int k = 0; k < nops; )
            {
                int batch = draw_a(ST_OP, a, 4) == 3 && K.pipe_cap >= 4096 ? 2 + draw_a(ST_OP, a, 3) : 1;
                std::vector<Rq> qs(batch);
                for (auto &q : qs)
                    q = build();
                k += batch;
                if (op_skipped(a, std::min(k, 11)))
                    continue;
                if (!h.open && !h.connect())
                    violation("no-connect", "client %u", a);
                std::string bytes;
                for (int j = 0; j < batch; j++)
                {
                    bytes += qs[j].bytes;
                    if (!qs[j].keep)
                        qs.resize(batch = j + 1);
                }
                if (verbose())
                    sim::log("client sends %s", bytes.c_str());
                h.st.write(bytes, now() + h.timeout);
                for (auto &q : qs)
                {
                    Resp r = h.recv();
                    check(q, r);
                    std::string c = r.headers.count("connection") ? r.headers["connection"] : "";
                    if (!q.keep || !strcasecmp(c.c_str(), "close"))
                    {
                        if (q.keep)
                            violation("closed", "client %u: keep-alive connection closed", a);
                        h.timeout = 60 * SEC;
                        Resp r2 = h.recv();
                        h.timeout = 600 * SEC;
                        if (!r2.closed())
                            violation("left-open", "client %u: %s", a, r2.show().c_str());
                        h.close();
                        break;
                    }
                }
                if (h.open && draw_a(ST_OP, a, 6) == 5)
                    h.close();
            }
            h.close();
        });
    cl.wait();
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
