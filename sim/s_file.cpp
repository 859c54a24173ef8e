// C21: files served over HTTP.
#include "zm.hpp"
#include <algorithm>
#include <string.h>
using namespace sim;

namespace {
struct Area { std::string prefix, root; bool raw, pass; };
struct Want {                        // what a request must get
    bool file = false;
    std::string name, ctype;
    bool raw = false, maybe = false; // maybe: a fault decides
    std::vector<std::string> bodies; // versions of the file at any time of the request
};
}
static std::vector<Area> areas;
static bool swapping;                // files are replaced while served
static std::map<std::string, std::vector<std::pair<i64, std::string>>> versions;
static void put(const std::string &name, const std::string &data)
{
    fs[name].data = data;
    fs[name].exists = true;
    versions[name].push_back({ now(), data });
}
static std::string content(const std::string &name, int ver, size_t n)
{
    std::string s = strf("[%s#%d]", name.c_str(), ver);
    u64 h = hash_str(s);
    for (size_t i = s.size(); i < n; i++)
    {
        h = mix(h, i);
        s += (char) (h & 255);
    }
    return s.substr(0, n);
}
static std::string raw_msg(const std::string &id, int code)
{
    return strf("HTTP/1.1 %d X\r\nX-Raw: %s\r\nContent-Length: %zu\r\n\r\n", code, id.c_str(),
                id.size()) + id;
}
SCENARIO(files)
{
    swarm_sched();
    swarm_net();
    dns("proxy", true);
    areas.clear();
    bool slash = chance(ST_KNOB, 1, 3);
    std::string sl = slash ? "/" : "";
    areas.push_back({ "/files" + sl, "/simfs/root" + sl, false, false });
    areas.push_back({ "/pass", "/simfs/pass", false, true });
    areas.push_back({ "/raw", "/simfs/raw", true, false });
    if (chance(ST_KNOB, 1, 3))
        areas.insert(areas.begin(), { "/files/sub", "/simfs/other", false, false });
    bool faults = chance(ST_KNOB, 1, 2);
    swapping = chance(ST_KNOB, 1, 3);
    static const std::pair<const char *, size_t> names[] = {
        { "/simfs/root/a.txt", 40 }, { "/simfs/root/b.html", 700 }, { "/simfs/root/noext", 9 },
        { "/simfs/root/empty.txt", 0 }, { "/simfs/root/big.bin", 20000 },
        { "/simfs/root/sub/c.txt", 100 }, { "/simfs/root/x.TXT", 33 }, { "/simfs/root/a b.txt", 44 },
        { "/simfs/root/dir.txt/q.unknown", 12 }, { "/simfs/other/c.txt", 50 },
        { "/simfs/root/q?r.txt", 45 }, { "/simfs/root/h#i.html", 46 }, { "/simfs/root/p%41.txt", 47 },
        { "/simfs/root/pA.txt", 48 }, { "/simfs/root/e+f.txt", 49 }, { "/simfs/root/e f.txt", 52 },
        { "/simfs/root/q", 53 }, { "/simfs/root/h", 54 }, { "/simfs/root/m.html.txt", 55 },
        { "/simfs/root/dir.txt/plain", 56 },
        { "/simfs/root.txt", 74 }, { "/simfs/root-x", 75 }, { "/simfs/root2/a.txt", 76 },
        { "/simfs/other/a.txt", 51 },
        { "/simfs/pass/a.txt", 60 }, { "/simfs/pass/p.html", 61 },
        { "/simfs/root-secret/s.txt", 70 }, { "/simfs/secret.txt", 71 }, { "/simfs/roots.txt", 72 },
        { "/simfs/other-x/s.txt", 73 } };
    fs.clear();
    versions.clear();
    for (auto &x : names)
        put(x.first, content(x.first, 0, x.second));
    bool large = K.pipe_cap >= 65536 && chance(ST_KNOB, 1, 6);
    if (large)
    {
        put("/simfs/root/limit.bin", content("l", 0, 1000000));
        put("/simfs/root/over.bin", content("o", 0, 1000001));
    }
    put("/simfs/raw/ok.txt", raw_msg("okraw", 201));
    put("/simfs/raw/bad.txt", "no such message");
    put("/simfs/raw/none.txt", "");
    for (const char *d : { "/simfs/root", "/simfs/root/sub", "/simfs/root/dir.txt", "/simfs/pass",
                           "/simfs/other", "/simfs/raw" })
    {
        fs[d].isdir = true;
        fs[d].exists = true;
    }
    std::string mime = "text/plain txt asc\ntext/html html htm\nimage/png png\n";
    std::string conf = "<mimetypes>" + memfile(mime) + "</mimetypes>";
    for (auto &a : areas)
        conf += "<area><documentroot>" + a.root + "</documentroot><prefix>" + a.prefix + "</prefix>" +
            (a.raw ? "<raw>true</raw>" : "") + (a.pass ? "<passthru>true</passthru>" : "") + "</area>";
    bool second = chance(ST_KNOB, 1, 3);
    if (faults)
    {
        static const char *fl[] = { "/simfs/root/a.txt", "/simfs/root/b.html", "/simfs/root/big.bin",
            "/simfs/pass/a.txt" };
        for (auto n : fl)
            switch (draw(ST_FAULT, 7))
            {
            case 1: fs[n].eio_open = true; break;
            case 2: fs[n].eacces = true; break;
            case 3: fs[n].read_err_at = draw(ST_FAULT, fs[n].data.size()); break;
            case 4: fs[n].truncate_after_stat = draw(ST_FAULT, fs[n].data.size()); break;
            }
    }
    int nc = 1 + draw(ST_KNOB, 5);
    start_proxy(mp_config("<routes><route id=\"start\">" + frontend(9000, rand_threads()) +
        "<filter type=\"http_file\">" + conf + "</filter>" +
        (second ? "<filter type=\"http_file\"><area><documentroot>/simfs/other</documentroot>"
         "<prefix>/pass</prefix></area></filter>" : "") +
        "<filter type=\"bounce\"/></route></routes>"));
    wait_listen(9000);
    int fds0 = idle_fds();
    bool emfile = faults && chance(ST_KNOB, 1, 4);
    if (emfile)
        K.max_fds = fds0 + nc + draw(ST_FAULT, 2);
    auto faulty = [=](const std::string &n) {
        const FsFile &f = fs[n];
        return f.eio_open || f.eacces || f.read_err_at >= 0 || f.truncate_after_stat >= 0 || emfile;
    };
    // what a request for a (decoded) path must get
    auto resolve = [=](const std::string &path, Want &w, bool with_second) -> bool {
        if (path.find("..") != std::string::npos)
            return false;
        std::vector<Area> as = areas;
        for (auto &a : as)
        {
            if (path.compare(0, a.prefix.size(), a.prefix))
                continue;
            std::string rest = path.substr(a.prefix.size());
            if (!rest.empty() && rest[0] != '/' && a.prefix.back() != '/')
                continue;                    // another name that only begins so
            std::string n = a.root + rest, m;
            for (char c : n)                 // "//" and "/./" as the kernel does
                if (c != '/' || m.empty() || m.back() != '/')
                    m += c;
            for (size_t p; (p = m.find("/./")) != std::string::npos; )
                m.erase(p, 2);
            if (fs.count(m) && fs[m].exists && !fs[m].isdir && fs[m].data.size() <= 1000000)
            {
                w.file = true;
                w.name = m;
                w.raw = a.raw;
                w.maybe = faulty(m);
            }
            else if (a.pass && with_second)
            {
                m = "/simfs/other" + rest;
                if (fs.count(m) && fs[m].exists && !fs[m].isdir)
                {
                    w.file = true;
                    w.name = m;
                    w.maybe = faulty(m);
                    w.ctype = "application/octet-stream";
                }
            }
            return w.file;
        }
        if (with_second && path.compare(0, 6, "/pass/") == 0)
            return false;
        return false;
    };
    static bool stop_swap;
    stop_swap = false;
    if (swapping)
        spawn("swapper", [=] {
            for (int v = 1; !stop_swap; v++)
            {
                sleep_us((1 + draw(ST_OP, 400)) * MS);
                static const char *sn[] = { "/simfs/root/a.txt", "/simfs/root/b.html",
                    "/simfs/pass/a.txt" };
                const char *n = sn[draw(ST_OP, 3)];
                put(n, content(n, v, draw(ST_OP, 900)));
            }
        }, 111);
    Clients cl;
    for (int i = 0; i < nc; i++)
        cl.go(100 + i, "client", [=] {
            unsigned a = 100 + i;
            HClient h(a, strf("10.1.0.%u", i + 1));
            int nops = 1 + draw_a(ST_OP, a, 12);
            struct Rq { std::string path, bytes; bool get = true, keep = true; };
            for (int k = 0; k < nops; )
            {
                int batch = draw_a(ST_OP, a, 5) == 4 && K.pipe_cap >= 4096 ? 2 + draw_a(ST_OP, a, 3) : 1;
                std::vector<Rq> qs;
                for (int j = 0; j < batch; j++)
                {
                    Rq q;
                    static const char *paths[] = { "/files/a.txt", "/files/b.html", "/files/noext",
                        "/files/empty.txt", "/files/big.bin", "/files/sub/c.txt", "/files/x.TXT",
                        "/files/a%20b.txt", "/files/dir.txt/q.unknown", "/pass/a.txt", "/pass/p.html",
                        "/files/%61.txt", "/files//a.txt", "/files/./b.html",
                        "/files/q%3Fr.txt", "/files/h%23i.html", "/files/p%2541.txt", "/files/p%41.txt",
                        "/files/e%2Bf.txt", "/files/e%20f.txt", "/files/q", "/files/h", "/files/m.html.txt",
                        "/files/dir.txt/plain", "/files%2Fa.txt",                      // 24
                        "/files/nosuch.txt", "/files", "/files/", "/files/sub", "/files/dir.txt",
                        "/files.txt", "/files-x", "/files2/a.txt", "/files.", "/filesa.txt",
                        "/pass/c.txt", "/pass/nosuch", "/nosuch", "/", "/raw/ok.txt",  // 23
                        "/raw/bad.txt", "/raw/none.txt", "/raw/nosuch",
                        "/files/../secret.txt", "/files/%2e%2e/secret.txt", "/files/sub/../../secret.txt",
                        "/files-secret/s.txt", "/filess.txt", "/files/..", "/files%2f..%2fsecret.txt",
                        "/files/sub-x/s.txt", "/files/a.txt/", "/FILES/a.txt", "files/a.txt",
                        "/files/limit.bin", "/files/over.bin", "http://h/files/a.txt" };
                    unsigned np = sizeof paths / sizeof *paths;
                    std::string p = paths[draw_a(ST_OP, a, 2) || batch > 1 ? draw_a(ST_OP, a, 25) : draw_a(ST_OP, a, np)];
                    if (!large && (p.find("limit.bin") != std::string::npos || p.find("over.bin") != std::string::npos))
                        p = "/files/a.txt";
                    q.path = p;
                    if (draw_a(ST_OP, a, 4) == 3)
                        p += draw_a(ST_OP, a, 2) ? "?x=../y" : "#frag";
                    static const char *m[] = { "GET", "GET", "GET", "GET", "POST", "HEAD", "DELETE" };
                    unsigned mi = draw_a(ST_OP, a, 7);
                    // no pipelining behind a request that ends the connection
                    if (batch > 1)
                        mi = 0;
                    q.get = mi < 4;
                    q.keep = draw_a(ST_OP, a, 6) != 5;
                    q.bytes = std::string(m[mi]) + " " + p + " HTTP/1.1\r\nHost: proxy\r\n" +
                        (q.keep ? "" : "Connection: close\r\n") +
                        (mi == 4 ? "Content-Length: 3\r\n\r\nabc" : "\r\n");
                    qs.push_back(q);
                    if (!q.keep)
                        break;
                }
                k += batch;
                if (op_skipped(a, std::min(k, 11)))
                    continue;
                if (!h.open && !h.connect())
                {
                    if (emfile)
                    {
                        sleep_us(SEC);
                        continue;
                    }
                    violation("no-connect", "client %u", a);
                }
                std::string bytes;
                for (auto &q : qs)
                    bytes += q.bytes;
                if (verbose())
                    sim::log("client sends %s", bytes.c_str());
                i64 t0 = now();
                h.st.write(bytes, now() + h.timeout);
                for (auto &q : qs)
                {
                    Resp r = h.recv();
                    auto who = [&] { return strf("client %u %s %s", a, q.get ? "GET" : "other", q.path.c_str()); };
                    if (!r.ok())
                    {
                        if (emfile && r.closed())
                        {                       // never accepted
                            h.close();
                            sleep_us(SEC);
                            break;
                        }
                        violation("no-response", "%s: %s", who().c_str(), r.show().c_str());
                    }
                    std::string dec;
                    for (size_t x = 0; x < q.path.size(); x++)
                        if (q.path[x] == '%')
                        {
                            dec += (char) strtol(q.path.substr(x + 1, 2).c_str(), 0, 16);
                            x += 2;
                        }
                        else
                            dec += q.path[x];
                    Want w;
                    bool file = resolve(dec, w, second) && q.get;
                    auto secret = [&] {
                        for (auto &f : fs)
                            if (f.second.data.size() > 6 && r.body.find(f.second.data.substr(0, 6)) != std::string::npos &&
                                f.first.compare(0, 10, "/simfs/raw"))
                                return true;
                        return false;
                    };
                    if (!file)
                    {
                        if (r.http_code < 400 || secret())
                            violation("not-refused", "%s: %d '%s'", who().c_str(), r.http_code, r.body.c_str());
                        count("probe.file_refused");
                    }
                    else if (w.raw && !(w.maybe && r.http_code >= 400))
                    {
                        bool good = w.name == "/simfs/raw/ok.txt";
                        if (good ? r.http_code != 201 || r.body != "okraw" : r.http_code < 400)
                            violation("raw", "%s: %d '%s'", who().c_str(), r.http_code, r.body.c_str());
                    }
                    else if (w.maybe && r.http_code >= 400)
                    {
                        count("probe.file_error_after_fault");
                        if (secret())
                            violation("not-refused", "%s: %d with content '%s'", who().c_str(), r.http_code, r.body.c_str());
                    }
                    else
                    {
                        std::string e = w.name.substr(w.name.rfind('/') + 1);
                        size_t p = e.rfind('.');
                        e = p == std::string::npos ? "" : e.substr(p + 1);
                        std::string ct = e == "txt" ? "text/plain" : e == "html" ? "text/html" :
                            "application/octet-stream";
                        if (!w.ctype.empty())
                            ct = w.ctype;
                        if (r.http_code != 200 || r.headers["content-type"] != ct)
                            violation("wrong-response", "%s: %d type '%s', want 200 '%s'", who().c_str(),
                                      r.http_code, r.headers["content-type"].c_str(), ct.c_str());
                        bool ok = false;
                        auto &vs = versions[w.name];
                        for (size_t x = 0; x < vs.size(); x++)
                            if (r.body == vs[x].second && (x + 1 == vs.size() || vs[x + 1].first >= t0))
                                ok = true;
                        if (!ok)
                            violation("wrong-content", "%s: %zu bytes '%s', %zu versions, last of %zu bytes",
                                      who().c_str(), r.body.size(), r.body.substr(0, 60).c_str(), vs.size(),
                                      vs.back().second.size());
                        count("probe.file_exact");
                    }
                    const std::string &c = r.headers["connection"];
                    // bounce, the last filter, answers 400 and closes
                    if ((!q.keep && !w.raw) || !strcasecmp(c.c_str(), "close") || r.http_code == 400)
                    {
                        h.timeout = 60 * SEC;
                        Resp r2 = h.recv();
                        h.timeout = 600 * SEC;
                        if (!r2.closed())
                            violation("left-open", "client %u: %s", a, r2.show().c_str());
                        h.close();
                        break;
                    }
                    if (!q.keep)
                        h.close();
                }
                if (h.open && draw_a(ST_OP, a, 6) == 5)
                    h.close();
            }
            h.close();
        });
    cl.wait();
    stop_swap = true;
    for (auto &n : fs_opened)
    {
        bool in = false;
        for (const char *r : { "/simfs/root", "/simfs/pass", "/simfs/raw", "/simfs/other" })
            if (n == r || n.compare(0, strlen(r) + 1, std::string(r) + "/") == 0)
                in = true;
        if (!in)
            violation("escaped", "%s opened", n.c_str());
    }
    if (!wait_fds(fds0, 62 * SEC + margin()))
        violation("leak", "%d descriptors after the last client, %d at start: %s",
                  open_fds(), fds0, list_fds().c_str());
}
