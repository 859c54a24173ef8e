// Objects of libyaz that must not be used by two threads at once.  libyaz is
// not instrumented, so a thread is never preempted inside it; here it may be
// descheduled while it holds such an object, and two users at a time, or an
// error text read after somebody else's use, is a violation.
#include "sim.hpp"
#include <map>
#include <yaz/record_conv.h>
#include <yaz/cql.h>
#include <yaz/zoom.h>
using namespace sim;

namespace {
struct Use { int in = -1, depth = 0, last = -1; };
struct Guard {
    const char *what;
    void *obj;
    static std::map<void *, Use> &tab() { static auto *m = new std::map<void *, Use>; return *m; }
    Guard(const char *what, void *obj) : what(what), obj(obj)
    {
        point(what);
        if (obj)
        {
            NoPreempt np;
            Use &u = tab()[obj];
            if (u.depth && u.in != thread_id())
                violation("shared-object", "%s: object is in use by thread %d", what, u.in);
            u.in = u.last = thread_id();
            u.depth++;
        }
        point(what);
    }
    ~Guard()
    {
        point(what);
        leave();
        point(what);
    }
    void leave()
    {
        NoPreempt np;
        auto it = tab().find(obj);
        if (it != tab().end() && it->second.in == thread_id() && it->second.depth)
            it->second.depth--;
        obj = 0;
    }
};
}
static void own_error(const char *what, void *obj)
{
    point(what);
    NoPreempt np;
    auto it = Guard::tab().find(obj);
    if (it != Guard::tab().end() && it->second.last != -1 && it->second.last != thread_id())
        violation("stale-error", "%s: the error of thread %d's request", what, it->second.last);
}
// after this the address may be another object's at any time
static void ends(const char *what, void *obj)
{
    Guard g(what, obj);
    NoPreempt np;
    Guard::tab().erase(obj);
}
extern "C" {
int __real_yaz_record_conv_record(yaz_record_conv_t p, const char *buf, size_t len, WRBUF w);
int __wrap_yaz_record_conv_record(yaz_record_conv_t p, const char *buf, size_t len, WRBUF w)
{
    Guard g("yaz_record_conv_record", p);
    return __real_yaz_record_conv_record(p, buf, len, w);
}
int __real_yaz_record_conv_opac_record(yaz_record_conv_t p, Z_OPACRecord *r, WRBUF w);
int __wrap_yaz_record_conv_opac_record(yaz_record_conv_t p, Z_OPACRecord *r, WRBUF w)
{
    Guard g("yaz_record_conv_opac_record", p);
    return __real_yaz_record_conv_opac_record(p, r, w);
}
const char *__real_yaz_record_conv_get_error(yaz_record_conv_t p);
const char *__wrap_yaz_record_conv_get_error(yaz_record_conv_t p)
{
    own_error("yaz_record_conv_get_error", p);
    return __real_yaz_record_conv_get_error(p);
}
int __real_cql_transform_buf(cql_transform_t ct, struct cql_node *cn, char *out, int max);
int __wrap_cql_transform_buf(cql_transform_t ct, struct cql_node *cn, char *out, int max)
{
    Guard g("cql_transform_buf", ct);
    return __real_cql_transform_buf(ct, cn, out, max);
}
int __real_cql_transform_rpn2cql_wrbuf(cql_transform_t ct, WRBUF w, Z_RPNQuery *q);
int __wrap_cql_transform_rpn2cql_wrbuf(cql_transform_t ct, WRBUF w, Z_RPNQuery *q)
{
    Guard g("cql_transform_rpn2cql_wrbuf", ct);
    return __real_cql_transform_rpn2cql_wrbuf(ct, w, q);
}
int __real_cql_transform_error(cql_transform_t ct, const char **addinfo);
int __wrap_cql_transform_error(cql_transform_t ct, const char **addinfo)
{
    own_error("cql_transform_error", ct);
    return __real_cql_transform_error(ct, addinfo);
}
void __real_ZOOM_connection_connect(ZOOM_connection c, const char *host, int port);
void __wrap_ZOOM_connection_connect(ZOOM_connection c, const char *host, int port)
{
    Guard g("ZOOM_connection_connect", c);
    __real_ZOOM_connection_connect(c, host, port);
}
ZOOM_resultset __real_ZOOM_connection_search(ZOOM_connection c, ZOOM_query q);
ZOOM_resultset __wrap_ZOOM_connection_search(ZOOM_connection c, ZOOM_query q)
{
    Guard g("ZOOM_connection_search", c);
    return __real_ZOOM_connection_search(c, q);
}
void __real_ZOOM_connection_destroy(ZOOM_connection c);
void __wrap_ZOOM_connection_destroy(ZOOM_connection c)
{
    ends("ZOOM_connection_destroy", c);
    __real_ZOOM_connection_destroy(c);
}
void __real_ZOOM_resultset_records(ZOOM_resultset r, ZOOM_record *recs, size_t start, size_t count);
void __wrap_ZOOM_resultset_records(ZOOM_resultset r, ZOOM_record *recs, size_t start, size_t count)
{
    Guard g("ZOOM_resultset_records", r);
    __real_ZOOM_resultset_records(r, recs, start, count);
}
void __real_ZOOM_resultset_destroy(ZOOM_resultset r);
void __wrap_ZOOM_resultset_destroy(ZOOM_resultset r)
{
    ends("ZOOM_resultset_destroy", r);
    __real_ZOOM_resultset_destroy(r);
}
}
