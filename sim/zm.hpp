// A Z39.50 client that knows what it must get back.
#ifndef ZM_HPP
#define ZM_HPP
#include "env.hpp"
namespace sim {
// an anonymous file that the proxy can open by name
std::string memfile(const std::string &content);
struct MSet { std::string host, db, term; long long hits; std::string esn; };
// One connection used by several requests at a time: each waits for the
// response with its own reference id.
struct Mux {
    ZClient *c;
    bool writing = false, reading = false, ended = false;
    Resp end;
    std::map<std::string, Resp> in;
    std::set<std::string> open;
    explicit Mux(ZClient *c_) : c(c_) {}
    Resp call(const std::string &bytes, const std::string &ref, i64 timeout);
};
typedef std::shared_ptr<Mux> MuxP;
// run all of these at a time; returns when the last is done
void parallel(unsigned actor, const std::vector<std::function<void()>> &v);
struct MClient : ZClient {
    MuxP mux;
    int n = 0;                 // requests made
    std::string last_ref;
    std::map<std::string, MSet> sets;
    std::string pfx;
    // maps what was asked to the backend's record text
    std::function<std::string(const MSet &, long long pos, const std::string &esn,
                              const std::string &syntax)> rec;
    bool tolerate = false;     // a Close or end of connection is acceptable
    bool dead = false;         // it happened
    i64 t_call = 0;            // duration of the last call
    i64 max_call = -1;         // bound on it
    MClient(unsigned a) : ZClient(a, strf("10.1.0.%u", a - 100 + 1)),
                          pfx(strf("c%u", a)) {}
    std::string ref() { return last_ref = strf("%s-%d", pfx.c_str(), n++); }
    Resp call(const std::string &d)
    { return mux ? mux->call(d, last_ref, timeout) : ZClient::call(d); }
    std::string who() { return strf("client %u, request %s", actor, last_ref.c_str()); }
    // one request, one response of type which; false: tolerated loss
    bool go(const std::string &bytes, int which, Resp &r);
    bool must_connect(int port = 0);
    bool init(const std::string &user = "", const std::string &pass = "",
              bool named = true, const std::string &vhost = "");
    bool search(const std::string &set, const std::string &host,
                const std::string &db, const std::string &term,
                const SearchOpt &o = SearchOpt(), const std::string &bdb = "");
    bool present(const std::string &set, long long start, long long num,
                 const std::string &syntax = "xml", const std::string &esn = "F");
    void check_asi(const Resp &r, const std::string &asi, const std::string &term);
    void check_recs(const Resp &r, const MSet &s, long long start, long long num,
                    const std::string &syntax, const std::string &esn);
    void quiet(i64 us);        // nothing more arrives
    void bye();
};
std::string uterm(unsigned actor, int k, long long hits);
// wait until the proxy's descriptors are down to n; false after the limit
bool wait_fds(int n, i64 limit);
int idle_fds();                // after start-up, before any client
// route pieces and client behaviour shared by scenarios
std::string passthru(std::string *filters_section);
std::string zclient(const std::string &extra = "");
std::string rand_threads();
const char *rand_syntax(unsigned a);
void model_ops(MClient &c, int nops, const std::string &host, unsigned opbase = 0);
void pipelined(MClient &c, const std::string &host);
void std_backend(ZServer &s);
i64 margin();                  // slack for network and scheduling delays
}
#endif
