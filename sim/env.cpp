#include "env.hpp"
#include "procs.hpp"
#include <yaz/comstack.h>
#include <yaz/otherinfo.h>
#include <yaz/prt-ext.h>
#include <yaz/sortspec.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>

extern int mp_main(int argc, char **argv);

namespace sim {
int PROXY_PORT = 9000;
std::string strf(const char *fmt, ...)
{
    char b[4000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
Msg::Msg() : odr(odr_createmem(ODR_DECODE)), gdu(0) {}
Msg::~Msg() { odr_destroy(odr); }
bool Msg::decode(const std::string &b)
{
    raw = b;
    odr_setbuf(odr, (char *) raw.data(), (int) raw.size(), 0);
    return z_GDU(odr, &gdu, 0, 0) != 0;
}
std::string Odr::encode(Z_APDU *a)
{
    if (!z_APDU(o, &a, 0, 0))
        return "";
    int len;
    char *b = odr_getbuf(o, &len, 0);
    return std::string(b, len);
}
std::string Odr::encode_gdu(Z_GDU *g)
{
    if (!z_GDU(o, &g, 0, 0))
        return "";
    int len;
    char *b = odr_getbuf(o, &len, 0);
    return std::string(b, len);
}
RK Stream::read(MsgP &m, i64 deadline)
{
    for (;;)
    {
        if (!buf.empty())
        {
            int n = cs_complete_auto(buf.data(), (int) buf.size());
            if (n < 0 || n > (int) buf.size())
                return RK_JUNK;
            if (n > 0)
            {
                m.reset(new Msg);
                std::string one = buf.substr(0, n);
                buf.erase(0, n);
                if (!m->decode(one))
                    return RK_JUNK;
                return RK_MSG;
            }
        }
        char b[8192];
        long r = env_read(s, b, sizeof b, deadline);
        if (r <= 0)
            return r == 0 ? (buf.empty() ? RK_EOF : RK_EOF) : r == -1 ? RK_TIMEOUT : RK_RESET;
        buf.append(b, r);
    }
}
static std::string refstr(Z_ReferenceId *r)
{
    return r ? std::string((const char *) r->buf, r->len) : std::string();
}
static Z_ReferenceId *mkref(ODR o, const std::string &s)
{
    if (s.empty())
        return 0;
    return odr_create_Odr_oct(o, s.data(), (int) s.size());
}
static void parse_diag(Z_DefaultDiagFormat *d, int *code, std::string *add)
{
    *code = d->condition ? (int) *d->condition : -1;
    if (d->which == Z_DefaultDiagFormat_v2Addinfo)
        *add = d->u.v2Addinfo ? d->u.v2Addinfo : "";
    else
        *add = d->u.v3Addinfo ? d->u.v3Addinfo : "";
}
static const Odr_oid asi_oid[] = { 1, 2, 840, 10003, 10, 99, -1 };
static std::string get_asi(Z_OtherInformation **oi)
{
    const char *v = *oi ? yaz_oi_get_string_oid(oi, asi_oid, 1, 0) : 0;
    return v ? v : "";
}
static void parse_records(Resp &r, Z_Records *rec)
{
    if (!rec)
        return;
    r.has_records = true;
    if (rec->which == Z_Records_NSD)
    {
        r.ndiag = 1;
        parse_diag(rec->u.nonSurrogateDiagnostic, &r.diag, &r.addinfo);
    }
    else if (rec->which == Z_Records_multipleNSD)
    {
        Z_DiagRecs *d = rec->u.multipleNonSurDiagnostics;
        r.ndiag = d->num_diagRecs;
        r.diag = -2;
        if (d->num_diagRecs && d->diagRecs[0]->which == Z_DiagRec_defaultFormat)
            parse_diag(d->diagRecs[0]->u.defaultFormat, &r.diag, &r.addinfo);
    }
    else if (rec->which == Z_Records_DBOSD)
    {
        Z_NamePlusRecordList *l = rec->u.databaseOrSurDiagnostics;
        for (int i = 0; i < l->num_records; i++)
        {
            Z_NamePlusRecord *n = l->records[i];
            std::string t, syn;
            if (n->which == Z_NamePlusRecord_databaseRecord)
            {
                Z_External *e = n->u.databaseRecord;
                if (e->direct_reference)
                {
                    char ob[OID_STR_MAX];
                    const char *nm = yaz_oid_to_string(yaz_oid_std(),
                                                       e->direct_reference, 0);
                    syn = nm ? nm : oid_oid_to_dotstring(e->direct_reference, ob);
                }
                if (e->which == Z_External_octet)
                    t.assign((char *) e->u.octet_aligned->buf,
                             e->u.octet_aligned->len);
                else if (e->which == Z_External_sutrs)
                    t.assign((char *) e->u.sutrs->buf, e->u.sutrs->len);
                else
                    t = strf("ext:%d", e->which);
            }
            else if (n->which == Z_NamePlusRecord_surrogateDiagnostic)
            {
                int c = -1;
                std::string a;
                if (n->u.surrogateDiagnostic->which == Z_DiagRec_defaultFormat)
                    parse_diag(n->u.surrogateDiagnostic->u.defaultFormat, &c, &a);
                t = strf("diag:%d:%s", c, a.c_str());
            }
            else
                t = strf("other:%d", n->which);
            r.recs.push_back(t);
            r.rec_db.push_back(n->databaseName ? n->databaseName : "");
            r.rec_syntax.push_back(syn);
        }
    }
}
static void opt_name(const char *name, void *h)
{
    Resp *r = (Resp *) h;
    r->opts += std::string(name) + " ";
}
void parse_resp(Resp &r)
{
    if (!r.m || !r.m->gdu)
        return;
    if (r.m->gdu->which == Z_GDU_HTTP_Response)
    {
        Z_HTTP_Response *h = r.m->gdu->u.HTTP_Response;
        r.http_code = h->code;
        if (h->content_buf)
            r.body.assign(h->content_buf, h->content_len);
        for (Z_HTTP_Header *x = h->headers; x; x = x->next)
        {
            std::string n = x->name;
            for (auto &c : n) c = (char) tolower(c);
            r.headers[n] = x->value ? x->value : "";
        }
        return;
    }
    Z_APDU *a = r.m->apdu();
    if (!a)
        return;
    r.which = a->which;
    Z_ReferenceId *ref = 0;
    switch (a->which)
    {
    case Z_APDU_initResponse:
        ref = a->u.initResponse->referenceId;
        r.init_ok = a->u.initResponse->result && *a->u.initResponse->result;
        yaz_init_opt_decode(a->u.initResponse->options, opt_name, &r);
        break;
    case Z_APDU_searchResponse:
    {
        Z_SearchResponse *s = a->u.searchResponse;
        ref = s->referenceId;
        r.hits = *s->resultCount;
        r.success = s->searchStatus && *s->searchStatus;
        r.present_status = s->presentStatus ? (int) *s->presentStatus : -1;
        r.returned = (int) *s->numberOfRecordsReturned;
        r.next = (int) *s->nextResultSetPosition;
        parse_records(r, s->records);
        r.asi = get_asi(&s->additionalSearchInfo);
        break;
    }
    case Z_APDU_presentResponse:
    {
        Z_PresentResponse *s = a->u.presentResponse;
        ref = s->referenceId;
        r.present_status = (int) *s->presentStatus;
        r.returned = (int) *s->numberOfRecordsReturned;
        r.next = (int) *s->nextResultSetPosition;
        parse_records(r, s->records);
        break;
    }
    case Z_APDU_scanResponse:
    {
        Z_ScanResponse *s = a->u.scanResponse;
        ref = s->referenceId;
        r.scan_status = (int) *s->scanStatus;
        if (s->positionOfTerm)
            r.scan_pos = (int) *s->positionOfTerm;
        if (s->entries)
        {
            for (int i = 0; s->entries->entries && i < s->entries->num_entries; i++)
            {
                Z_Entry *e = s->entries->entries[i];
                if (e->which == Z_Entry_termInfo && e->u.termInfo->term &&
                    e->u.termInfo->term->which == Z_Term_general)
                    r.terms.push_back({ std::string(
                        (char *) e->u.termInfo->term->u.general->buf,
                        e->u.termInfo->term->u.general->len),
                        e->u.termInfo->globalOccurrences ?
                        (long long) *e->u.termInfo->globalOccurrences : -1 });
                else
                    r.terms.push_back({ "?", -1 });
            }
            r.ndiag = s->entries->num_nonsurrogateDiagnostics;
            if (r.ndiag && s->entries->nonsurrogateDiagnostics[0]->which ==
                Z_DiagRec_defaultFormat)
                parse_diag(s->entries->nonsurrogateDiagnostics[0]->u.defaultFormat,
                           &r.diag, &r.addinfo);
        }
        break;
    }
    case Z_APDU_sortResponse:
    {
        Z_SortResponse *s = a->u.sortResponse;
        ref = s->referenceId;
        r.sort_status = (int) *s->sortStatus;
        if (s->diagnostics && s->num_diagnostics > 0)
        {
            r.ndiag = s->num_diagnostics;
            if (s->diagnostics[0]->which == Z_DiagRec_defaultFormat)
                parse_diag(s->diagnostics[0]->u.defaultFormat, &r.diag,
                           &r.addinfo);
        }
        break;
    }
    case Z_APDU_deleteResultSetResponse:
        ref = a->u.deleteResultSetResponse->referenceId;
        break;
    case Z_APDU_extendedServicesResponse:
        ref = a->u.extendedServicesResponse->referenceId;
        break;
    case Z_APDU_close:
        ref = a->u.close->referenceId;
        r.close_reason = a->u.close->closeReason ? (int) *a->u.close->closeReason : -1;
        r.close_msg = a->u.close->diagnosticInformation ?
            a->u.close->diagnosticInformation : "";
        break;
    }
    if (ref)
    {
        r.has_refid = true;
        r.refid = refstr(ref);
    }
}
std::string Resp::show() const
{
    if (kind != RK_MSG)
        return kind == RK_EOF ? "EOF" : kind == RK_TIMEOUT ? "TIMEOUT" :
            kind == RK_RESET ? "RESET" : "JUNK";
    if (http_code)
        return strf("HTTP %d len=%zu", http_code, body.size());
    std::string s = strf("apdu=%d ref=%s", which, refid.c_str());
    if (hits >= 0)
        s += strf(" hits=%lld", hits);
    if (returned >= 0)
        s += strf(" ret=%d next=%d", returned, next);
    if (ndiag)
        s += strf(" diag=%d(%s)", diag, addinfo.c_str());
    if (!recs.empty())
        s += strf(" recs=%zu first=[%.80s]", recs.size(), recs[0].c_str());
    if (which == Z_APDU_close)
        s += strf(" close=%d %s", close_reason, close_msg.c_str());
    if (which == Z_APDU_initResponse)
        s += strf(" init=%d", init_ok);
    if (which == Z_APDU_scanResponse)
        s += strf(" scan=%d terms=%zu", scan_status, terms.size());
    return s;
}
// ----------------------------------------------------------------- client
bool ZClient::connect(int port)
{
    st.s = env_connect(ip, "proxy", port ? port : PROXY_PORT, now() + timeout);
    st.buf.clear();
    open = st.s != 0;
    if (open)
        log("client %u connected conn %d", actor, env_conn_id(st.s));
    return open;
}
void ZClient::close()
{
    if (open)
    {
        log("client %u closes", actor);
        env_close(st.s);
    }
    open = false;
}
void ZClient::reset()
{
    if (open)
        env_reset(st.s);
    open = false;
}
bool ZClient::send_raw(const std::string &d)
{
    return st.write(d, now() + timeout);
}
Resp ZClient::recv()
{
    Resp r;
    r.kind = st.read(r.m, now() + timeout);
    if (r.kind == RK_MSG)
        parse_resp(r);
    log("client %u <- %s", actor, r.show().c_str());
    return r;
}
Resp ZClient::call(const std::string &d)
{
    Resp r;
    if (!send_raw(d))
    {
        // the answer may still be there (a Close, for instance)
        r = recv();
        return r;
    }
    return recv();
}
std::string ZClient::b_init(const std::string &refid, const std::string &user,
                            const std::string &pass, bool named, int version,
                            const std::string &vhost)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_initRequest);
    Z_InitRequest *q = a->u.initRequest;
    q->referenceId = mkref(o, refid);
    ODR_MASK_SET(q->options, Z_Options_search);
    ODR_MASK_SET(q->options, Z_Options_present);
    ODR_MASK_SET(q->options, Z_Options_delSet);
    ODR_MASK_SET(q->options, Z_Options_scan);
    ODR_MASK_SET(q->options, Z_Options_sort);
    if (named)
        ODR_MASK_SET(q->options, Z_Options_namedResultSets);
    ODR_MASK_SET(q->protocolVersion, Z_ProtocolVersion_1);
    ODR_MASK_SET(q->protocolVersion, Z_ProtocolVersion_2);
    if (version >= 3)
        ODR_MASK_SET(q->protocolVersion, Z_ProtocolVersion_3);
    if (!user.empty())
    {
        Z_IdAuthentication *auth =
            (Z_IdAuthentication *) odr_malloc(o, sizeof(*auth));
        if (pass == "\x01open")
        {
            auth->which = Z_IdAuthentication_open;
            auth->u.open = odr_strdup(o, user.c_str());
        }
        else
        {
            auth->which = Z_IdAuthentication_idPass;
            auth->u.idPass = (Z_IdPass *) odr_malloc(o, sizeof(Z_IdPass));
            auth->u.idPass->groupId = 0;
            auth->u.idPass->userId = odr_strdup(o, user.c_str());
            auth->u.idPass->password = odr_strdup(o, pass.c_str());
        }
        q->idAuthentication = auth;
    }
    std::string vh = vhost;          // several targets: host1+host2
    for (int cat = 1; !vh.empty(); cat++)
    {
        size_t p = vh.find('+');
        std::string one = vh.substr(0, p);
        vh = p == std::string::npos ? "" : vh.substr(p + 1);
        yaz_oi_set_string_oid(&q->otherInfo, o, yaz_oid_userinfo_proxy, cat,
                              one.c_str());
    }
    return o.encode(a);
}
static Z_RecordComposition *mkcomp_simple(ODR o, const std::string &esn)
{
    Z_RecordComposition *c = (Z_RecordComposition *) odr_malloc(o, sizeof(*c));
    c->which = Z_RecordComp_simple;
    c->u.simple = (Z_ElementSetNames *) odr_malloc(o, sizeof(Z_ElementSetNames));
    c->u.simple->which = Z_ElementSetNames_generic;
    c->u.simple->u.generic = odr_strdup(o, esn.c_str());
    return c;
}
static Odr_oid *mksyntax(ODR o, const std::string &s)
{
    if (s.empty())
        return 0;
    return yaz_string_to_oid_odr(yaz_oid_std(), CLASS_RECSYN, s.c_str(), o);
}
std::string ZClient::b_search(const std::string &refid, const std::string &pqf,
                              const SearchOpt &so)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest);
    Z_SearchRequest *q = a->u.searchRequest;
    q->referenceId = mkref(o, refid);
    q->num_databaseNames = (int) so.dbs.size();
    q->databaseNames = (char **) odr_malloc(o, sizeof(char *) * (so.dbs.size() + 1));
    for (size_t i = 0; i < so.dbs.size(); i++)
        q->databaseNames[i] = odr_strdup(o, so.dbs[i].c_str());
    q->resultSetName = odr_strdup(o, so.set.c_str());
    *q->replaceIndicator = so.replace;
    *q->smallSetUpperBound = so.small;
    *q->largeSetLowerBound = so.large;
    *q->mediumSetPresentNumber = so.medium;
    q->preferredRecordSyntax = mksyntax(o, so.syntax);
    if (!so.esn.empty())
    {
        q->smallSetElementSetNames = mkcomp_simple(o, so.esn)->u.simple;
        q->mediumSetElementSetNames = q->smallSetElementSetNames;
    }
    if (!so.asi.empty())
        yaz_oi_set_string_oid(&q->additionalSearchInfo, o, asi_oid, 1, so.asi.c_str());
    if (so.med_esn == "-")
        q->mediumSetElementSetNames = 0;
    else if (!so.med_esn.empty())
        q->mediumSetElementSetNames = mkcomp_simple(o, so.med_esn)->u.simple;
    Z_Query *zq = (Z_Query *) odr_malloc(o, sizeof(*zq));
    zq->which = Z_Query_type_1;
    YAZ_PQF_Parser pp = yaz_pqf_create();
    zq->u.type_1 = yaz_pqf_parse(pp, o, pqf.c_str());
    yaz_pqf_destroy(pp);
    if (!zq->u.type_1)
        violation("harness", "bad pqf %s", pqf.c_str());
    q->query = zq;
    return o.encode(a);
}
std::string ZClient::b_present(const std::string &refid, const std::string &set,
                               long long start, long long n,
                               const std::string &syntax, const std::string &esn)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_presentRequest);
    Z_PresentRequest *q = a->u.presentRequest;
    q->referenceId = mkref(o, refid);
    q->resultSetId = odr_strdup(o, set.c_str());
    *q->resultSetStartPoint = start;
    *q->numberOfRecordsRequested = n;
    q->preferredRecordSyntax = mksyntax(o, syntax);
    if (!esn.empty())
        q->recordComposition = mkcomp_simple(o, esn);
    return o.encode(a);
}
std::string ZClient::b_scan(const std::string &refid, const std::string &db,
                            const std::string &term, int n, int pos,
                            bool has_pos, int step)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_scanRequest);
    Z_ScanRequest *q = a->u.scanRequest;
    q->referenceId = mkref(o, refid);
    q->num_databaseNames = 1;
    q->databaseNames = (char **) odr_malloc(o, sizeof(char *));
    q->databaseNames[0] = odr_strdup(o, db.c_str());
    *q->numberOfTermsRequested = n;
    q->preferredPositionInResponse = has_pos ? odr_intdup(o, pos) : 0;
    if (step >= 0)
        q->stepSize = odr_intdup(o, step);
    YAZ_PQF_Parser pp = yaz_pqf_create();
    q->termListAndStartPoint = yaz_pqf_scan(pp, o, &q->attributeSet, term.c_str());
    yaz_pqf_destroy(pp);
    return o.encode(a);
}
std::string ZClient::b_sort(const std::string &refid, const std::string &in,
                            const std::string &out, const std::string &crit)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_sortRequest);
    Z_SortRequest *q = a->u.sortRequest;
    q->referenceId = mkref(o, refid);
    q->num_inputResultSetNames = 1;
    q->inputResultSetNames = (Z_InternationalString **)
        odr_malloc(o, sizeof(char *));
    q->inputResultSetNames[0] = odr_strdup(o, in.c_str());
    q->sortedResultSetName = odr_strdup(o, out.c_str());
    q->sortSequence = yaz_sort_spec(o, crit.c_str());
    return o.encode(a);
}
std::string ZClient::b_delete(const std::string &refid, const std::string &set)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_deleteResultSetRequest);
    Z_DeleteResultSetRequest *q = a->u.deleteResultSetRequest;
    q->referenceId = mkref(o, refid);
    q->num_resultSetList = 1;
    q->resultSetList = (Z_InternationalString **) odr_malloc(o, sizeof(char *));
    q->resultSetList[0] = odr_strdup(o, set.c_str());
    q->deleteFunction = odr_intdup(o, Z_DeleteResultSetRequest_list);
    return o.encode(a);
}
std::string ZClient::b_close(const std::string &refid)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_close);
    a->u.close->referenceId = mkref(o, refid);
    *a->u.close->closeReason = Z_Close_finished;
    return o.encode(a);
}
std::string ZClient::b_es(const std::string &refid)
{
    Odr o;
    Z_APDU *a = zget_APDU(o, Z_APDU_extendedServicesRequest);
    a->u.extendedServicesRequest->referenceId = mkref(o, refid);
    *a->u.extendedServicesRequest->function = Z_ExtendedServicesRequest_create;
    a->u.extendedServicesRequest->packageType =
        odr_oiddup(o, yaz_oid_extserv_xml_es);
    return o.encode(a);
}
// --------------------------------------------------------------- backends
long long term_hits(const std::string &t)
{
    size_t p = t.find('h');
    if (p == std::string::npos)
        return 0;
    return std::min(5000LL, std::max(0LL, atoll(t.c_str() + p + 1)));
}
std::string rec_text(const std::string &host, const std::string &db,
                     const std::string &term, long long pos,
                     const std::string &esn, const std::string &syntax)
{
    return strf("<r t=\"%s\" d=\"%s\" q=\"%s\" n=\"%lld\" e=\"%s\"/>",
                host.c_str(), db.c_str(), term.c_str(), pos, esn.c_str());
}
static Z_Term *find_term(Z_RPNStructure *s)
{
    if (!s)
        return 0;
    if (s->which == Z_RPNStructure_simple)
    {
        if (s->u.simple->which == Z_Operand_APT)
            return s->u.simple->u.attributesPlusTerm->term;
        return 0;
    }
    Z_Term *t = find_term(s->u.complex->s1);
    return t ? t : find_term(s->u.complex->s2);
}
// the same bytes in another of EXTERNAL's encodings
static void odd_encoding(ODR o, Z_External *e, const std::string &t)
{
    if (t.size() % 2)
    {
        e->which = Z_External_arbitrary;
        Odr_bitmask *b = (Odr_bitmask *) odr_malloc(o, sizeof(*b));
        ODR_MASK_ZERO(b);
        for (size_t i = 0; i < t.size() && i < 200; i++)
            b->bits[b->top = (int) i] = (unsigned char) (t[i] | 0x80);
        e->u.arbitrary = b;
    }
    else
    {
        e->which = Z_External_single;
        e->u.single_ASN1_type = (Odr_any *) odr_create_Odr_oct(o, "\x04\x03""abc", 5);
    }
}
static Z_Records *multi_diag(ODR o, int n)
{
    Z_Records *rec = (Z_Records *) odr_malloc(o, sizeof(*rec));
    rec->which = Z_Records_multipleNSD;
    Z_DiagRecs *d = (Z_DiagRecs *) odr_malloc(o, sizeof(*d));
    rec->u.multipleNonSurDiagnostics = d;
    d->num_diagRecs = n;
    d->diagRecs = (Z_DiagRec **) odr_malloc(o, sizeof(Z_DiagRec *) * (n + 1));
    for (int i = 0; i < n; i++)
    {
        d->diagRecs[i] = (Z_DiagRec *) odr_malloc(o, sizeof(Z_DiagRec));
        d->diagRecs[i]->which = Z_DiagRec_defaultFormat;
        d->diagRecs[i]->u.defaultFormat = zget_DefaultDiagFormat(o, 2 + i, "multi");
    }
    return rec;
}
std::string query_term(Z_Query *q, std::string *full)
{
    std::string t;
    if (full)
    {
        WRBUF w = wrbuf_alloc();
        yaz_query_to_wrbuf(w, q);
        *full = wrbuf_cstr(w);
        wrbuf_destroy(w);
    }
    if (q->which == Z_Query_type_1 || q->which == Z_Query_type_101)
    {
        Z_Term *z = find_term(q->u.type_1->RPNStructure);
        if (z && z->which == Z_Term_general)
            t.assign((char *) z->u.general->buf, z->u.general->len);
    }
    else if (q->which == Z_Query_type_104 &&
             q->u.type_104->which == Z_External_CQL)
        t = q->u.type_104->u.cql;
    return t;
}
bool ZServer::conn_live(const BConn &c) const
{
    return c.open && !env_peer_closed(c.st.s);
}
std::string ZServer::record(const BReq &r, const BConn::Set &s, long long pos)
{
    if (rec_fn)
        return rec_fn(r, s, pos);
    std::string db;
    for (auto &d : s.dbs)
        db += (db.empty() ? "" : "+") + d;
    return rec_text(host, db, s.term, pos, r.esn, r.syntax);
}
long long scan_count(const std::string &host, const std::string &term)
{
    return 1 + hash_str(host + term) % 9;
}
void ZServer::start()
{
    listener = env_listen(host, port);
    SockP l = listener;
    spawn(strf("srv-%s", host.c_str()).c_str(), [this, l] {
        for (;;)
        {
            SockP s = env_accept(l, -1);
            if (!s)
                return;
            BConnP c(new BConn);
            c->srv = this;
            c->st.s = s;
            c->id = env_conn_id(s);
            c->actor = actor_base + (unsigned) conns.size();
            c->opened = c->last_used = now();
            conns.push_back(c);
            sim::log("backend %s accepts conn %d", host.c_str(), c->id);
            spawn("bconn", [this, c] { serve(c); }, c->actor);
        }
    }, actor_base);
}
void ZServer::stop()
{
    env_close(listener);
}
int ZServer::open_conns() const
{
    int n = 0;
    for (auto &c : conns)
        if (c->open)
            n++;
    return n;
}
void ZServer::drop_all()
{
    for (auto &c : conns)
        if (c->open)
        {
            env_reset(c->st.s);
            c->open = false;
        }
}
static const char *odb(ODR o, const std::vector<std::string> &d)
{
    return d.empty() ? "Default" : odr_strdup(o, d[0].c_str());
}
void ZServer::serve(BConnP c)
{
    auto bye = [&](bool rst) {
        if (c->open)
        {
            c->open = false;
            c->closed_at = now();
            if (rst)
                env_reset(c->st.s);
            else
                env_close(c->st.s);
        }
        if (on_close)
            on_close(*c);
    };
    for (;;)
    {
        MsgP m;
        RK k = c->st.read(m, -1);
        if (k != RK_MSG || !m->apdu())
        {
            sim::log("backend %s conn %d ends (%d)", host.c_str(), c->id, k);
            bye(false);
            return;
        }
        Z_APDU *a = m->apdu();
        BReq r;
        r.conn = c->id;
        r.t = now();
        r.which = a->which;
        c->nreq++;
        c->last_used = now();
        Odr o;
        Z_APDU *res = 0;
        Z_ReferenceId **ref = 0;
        // describe
        switch (a->which)
        {
        case Z_APDU_initRequest:
        {
            Z_InitRequest *q = a->u.initRequest;
            r.refid = refstr(q->referenceId);
            if (q->idAuthentication)
            {
                if (q->idAuthentication->which == Z_IdAuthentication_idPass)
                {
                    Z_IdPass *p = q->idAuthentication->u.idPass;
                    r.user = p->userId ? p->userId : "";
                    r.pass = p->password ? p->password : "";
                    if (p->groupId)
                        r.user += std::string("@") + p->groupId;
                }
                else if (q->idAuthentication->which == Z_IdAuthentication_open)
                    r.user = q->idAuthentication->u.open;
            }
            Z_OtherInformation **oi = &q->otherInfo;
            char *vh = yaz_oi_get_string_oid(oi, yaz_oid_userinfo_proxy, 1, 0);
            r.vhost = vh ? vh : "";
            c->user = r.user;
            c->pass = r.pass;
            c->vhost = r.vhost;
            sim::log("backend %s conn %d init user=%s vhost=%s", host.c_str(), c->id, r.user.c_str(), r.vhost.c_str());
            break;
        }
        case Z_APDU_searchRequest:
        {
            Z_SearchRequest *q = a->u.searchRequest;
            r.refid = refstr(q->referenceId);
            r.term = query_term(q->query, &r.query);
            r.set = q->resultSetName;
            for (int i = 0; i < q->num_databaseNames; i++)
                r.dbs.push_back(q->databaseNames[i]);
            r.asi = get_asi(&q->additionalSearchInfo);
            if (q->preferredRecordSyntax)
            {
                const char *n = yaz_oid_to_string(yaz_oid_std(),
                                                  q->preferredRecordSyntax, 0);
                r.syntax = n ? n : "?";
            }
            if (q->mediumSetElementSetNames &&
                q->mediumSetElementSetNames->which == Z_ElementSetNames_generic)
                r.esn = q->mediumSetElementSetNames->u.generic;
            if (q->smallSetElementSetNames && r.esn.empty() &&
                q->smallSetElementSetNames->which == Z_ElementSetNames_generic)
                r.esn = q->smallSetElementSetNames->u.generic;
            break;
        }
        case Z_APDU_presentRequest:
        {
            Z_PresentRequest *q = a->u.presentRequest;
            r.refid = refstr(q->referenceId);
            r.set = q->resultSetId;
            r.start = *q->resultSetStartPoint;
            r.num = *q->numberOfRecordsRequested;
            if (q->preferredRecordSyntax)
            {
                const char *n = yaz_oid_to_string(yaz_oid_std(),
                                                  q->preferredRecordSyntax, 0);
                r.syntax = n ? n : "?";
            }
            if (q->recordComposition &&
                q->recordComposition->which == Z_RecordComp_simple &&
                q->recordComposition->u.simple->which == Z_ElementSetNames_generic)
                r.esn = q->recordComposition->u.simple->u.generic;
            auto it = c->sets.find(r.set);
            if (it != c->sets.end())
            {
                r.term = it->second.term;
                r.query = it->second.query;
                r.dbs = it->second.dbs;
            }
            break;
        }
        case Z_APDU_scanRequest:
        {
            Z_ScanRequest *q = a->u.scanRequest;
            r.refid = refstr(q->referenceId);
            for (int i = 0; i < q->num_databaseNames; i++)
                r.dbs.push_back(q->databaseNames[i]);
            r.num = *q->numberOfTermsRequested;
            r.start = q->preferredPositionInResponse ?
                *q->preferredPositionInResponse : 1;
            if (q->termListAndStartPoint && q->termListAndStartPoint->term &&
                q->termListAndStartPoint->term->which == Z_Term_general)
                r.term.assign((char *) q->termListAndStartPoint->term->u.general->buf,
                              q->termListAndStartPoint->term->u.general->len);
            break;
        }
        case Z_APDU_sortRequest:
            r.refid = refstr(a->u.sortRequest->referenceId);
            r.set = a->u.sortRequest->sortedResultSetName;
            break;
        case Z_APDU_extendedServicesRequest:
            r.refid = refstr(a->u.extendedServicesRequest->referenceId);
            break;
        case Z_APDU_deleteResultSetRequest:
            r.refid = refstr(a->u.deleteResultSetRequest->referenceId);
            break;
        case Z_APDU_close:
        {
            sim::log("backend %s conn %d got Close", host.c_str(), c->id);
            Z_APDU *ca = zget_APDU(o, Z_APDU_close);
            ca->u.close->referenceId = mkref(o, refstr(a->u.close->referenceId));
            c->st.write(o.encode(ca));
            bye(false);
            return;
        }
        }
        sim::log("backend %s conn %d req %d term=%s set=%s start=%lld num=%lld",
                 host.c_str(), c->id, r.which, r.term.c_str(), r.set.c_str(),
                 r.start, r.num);
        log.push_back(r);
        c->outstanding++;
        if (on_req)
            on_req(*c, r);
        BAct act = policy ? policy(*c, r) : B_OK;
        if (act)
        {
            static const char *names[] = { "ok", "delay", "close", "reset",
                "partial", "silent", "diag", "wrong_apdu", "garbage", "fewer",
                "more", "norecs", "close_apdu", "surrogate", "badref", "extra",
                "nret_lie", "no_optional", "negative_hits", "odd_encoding",
                "multiple_diags", "quiet_failure", "no_diags" };
            count(strf("fault.backend_%s", names[act]).c_str());
            sim::log("backend %s conn %d act %s", host.c_str(), c->id, names[act]);
        }
        if (delay_max > 0)
        {
            unsigned q = draw(ST_NET, 6);
            if (q)
                sleep_us(delay_max * q / 5);
        }
        if (act == B_DELAY)
            sleep_us((1 + draw(ST_FAULT, 5)) * 3 * SEC);
        if (!c->open)
            return;
        if (act == B_CLOSE || act == B_RESET)
        {
            bye(act == B_RESET);
            return;
        }
        if (act == B_SILENT)
            continue;
        // build the answer
        switch (a->which)
        {
        case Z_APDU_initRequest:
        {
            res = zget_APDU(o, Z_APDU_initResponse);
            Z_InitResponse *p = res->u.initResponse;
            ref = &p->referenceId;
            *p->result = !init_fail && act != B_DIAG;
            ODR_MASK_SET(p->options, Z_Options_search);
            ODR_MASK_SET(p->options, Z_Options_present);
            ODR_MASK_SET(p->options, Z_Options_scan);
            ODR_MASK_SET(p->options, Z_Options_sort);
            ODR_MASK_SET(p->options, Z_Options_delSet);
            if (named)
                ODR_MASK_SET(p->options, Z_Options_namedResultSets);
            ODR_MASK_SET(p->protocolVersion, Z_ProtocolVersion_1);
            ODR_MASK_SET(p->protocolVersion, Z_ProtocolVersion_2);
            ODR_MASK_SET(p->protocolVersion, Z_ProtocolVersion_3);
            if (act == B_NULLPTR)
                p->implementationId = p->implementationName =
                    p->implementationVersion = 0;
            c->inited = *p->result;
            break;
        }
        case Z_APDU_searchRequest:
        {
            Z_SearchRequest *q = a->u.searchRequest;
            res = zget_APDU(o, Z_APDU_searchResponse);
            Z_SearchResponse *p = res->u.searchResponse;
            ref = &p->referenceId;
            long long hits = hits_fn ? hits_fn(r) : term_hits(r.term);
            int code = 0;
            if (r.term.compare(0, 3, "err") == 0)
                code = atoi(r.term.c_str() + 3);
            if (!named && r.set != "default")
                code = YAZ_BIB1_RESULT_SET_NAMING_UNSUPP;
            if (act == B_DIAG)
                code = 2;
            if (code)
            {
                *p->searchStatus = 0;
                *p->resultCount = 0;
                p->resultSetStatus = odr_intdup(o, Z_SearchResponse_none);
                c->sets.erase(r.set);
                if (act != B_NULLPTR)
                {
                    Z_Records *rec = (Z_Records *) odr_malloc(o, sizeof(*rec));
                    rec->which = Z_Records_NSD;
                    rec->u.nonSurrogateDiagnostic =
                        zget_DefaultDiagFormat(o, code, r.term.c_str());
                    p->records = rec;
                }
                break;
            }
            if (act == B_MULTI || act == B_MULTI0 || act == B_FAILQUIET)
            {
                *p->searchStatus = 0;
                *p->resultCount = 0;
                c->sets.erase(r.set);
                if (act == B_MULTI0)
                    p->records = multi_diag(o, 0);
                if (act == B_MULTI)
                    p->records = multi_diag(o, 1 + (int) (hits % 2));
                break;
            }
            if (act == B_NEGHITS)
            {
                *p->searchStatus = 0;
                *p->resultCount = -1;
                c->sets.erase(r.set);
                break;
            }
            if (!r.asi.empty())
                yaz_oi_set_string_oid(&p->additionalSearchInfo, o, asi_oid, 1,
                                      (r.asi + ":" + r.term).c_str());
            BConn::Set &s = c->sets[r.set];
            s.term = r.term;
            s.query = r.query;
            s.hits = hits;
            s.dbs = r.dbs;
            *p->resultCount = hits;
            *p->nextResultSetPosition = hits > 0 ? 1 : 0;
            long long nret = 0;
            if (hits <= *q->smallSetUpperBound)
                nret = hits;
            else if (hits < *q->largeSetLowerBound)
                nret = std::min((long long) *q->mediumSetPresentNumber, hits);
            if (act == B_MORE && nret > 0)
                nret += 2;
            if (act == B_FEWER && nret > 0)
                nret = nret / 2;
            if (nret > max_recs_per_present)
                nret = max_recs_per_present;
            if (nret > 0 && act != B_NULLPTR)
            {
                Z_Records *rec = (Z_Records *) odr_malloc(o, sizeof(*rec));
                rec->which = Z_Records_DBOSD;
                Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)
                    odr_malloc(o, sizeof(*l));
                rec->u.databaseOrSurDiagnostics = l;
                l->num_records = (int) nret;
                l->records = (Z_NamePlusRecord **)
                    odr_malloc(o, nret * sizeof(*l->records));
                for (long long i = 0; i < nret; i++)
                {
                    Z_NamePlusRecord *n = (Z_NamePlusRecord *)
                        odr_malloc(o, sizeof(*n));
                    n->databaseName = odr_strdup(o, odb(o, s.dbs));
                    n->which = Z_NamePlusRecord_databaseRecord;
                    std::string t = record(r, s, i + 1);
                    n->u.databaseRecord = z_ext_record_oid(
                        o, q->preferredRecordSyntax ? q->preferredRecordSyntax :
                        yaz_oid_recsyn_xml, t.data(), (int) t.size());
                    if (act == B_ODDENC)
                        odd_encoding(o, n->u.databaseRecord, t);
                    if (act == B_SURR && i == 0)
                        n = zget_surrogateDiagRec(o, odb(o, s.dbs), 14, "surr");
                    if (npr_fn)
                        npr_fn(o, &n, s, i + 1);
                    l->records[i] = n;
                }
                p->records = rec;
                *p->numberOfRecordsReturned = nret;
                *p->nextResultSetPosition = nret < hits ? nret + 1 : 0;
                p->presentStatus = odr_intdup(o, Z_PresentStatus_success);
            }
            if (act == B_NRET_LIE)
                *p->numberOfRecordsReturned = nret + 3;
            break;
        }
        case Z_APDU_presentRequest:
        {
            Z_PresentRequest *q = a->u.presentRequest;
            res = zget_APDU(o, Z_APDU_presentResponse);
            Z_PresentResponse *p = res->u.presentResponse;
            ref = &p->referenceId;
            auto it = c->sets.find(r.set);
            int code = 0;
            if (it == c->sets.end())
                code = YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST;
            else if (r.start < 1 || r.num < 0 ||
                     r.num > it->second.hits || r.start > it->second.hits ||
                     r.start + r.num - 1 > it->second.hits)
                code = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
            if (act == B_DIAG)
                code = 2;
            if (code)
            {
                *p->presentStatus = Z_PresentStatus_failure;
                *p->numberOfRecordsReturned = 0;
                Z_Records *rec = (Z_Records *) odr_malloc(o, sizeof(*rec));
                rec->which = Z_Records_NSD;
                rec->u.nonSurrogateDiagnostic =
                    zget_DefaultDiagFormat(o, code, "backend");
                p->records = rec;
                break;
            }
            if (act == B_MULTI || act == B_MULTI0 || act == B_FAILQUIET)
            {
                *p->presentStatus = Z_PresentStatus_failure;
                *p->numberOfRecordsReturned = 0;
                if (act == B_MULTI)
                    p->records = multi_diag(o, 2);
                break;
            }
            long long nret = r.num;
            if (nret > max_recs_per_present)
                nret = max_recs_per_present;
            if (act == B_FEWER)
                nret = (nret + 1) / 2;
            if (act == B_MORE)
                nret += 1 + draw(ST_FAULT, 4);
            if (act == B_NORECS)
                nret = 0;
            BConn::Set &s = it->second;
            *p->numberOfRecordsReturned = nret;
            *p->nextResultSetPosition = r.start + nret;
            if (r.start + nret > s.hits)
                *p->nextResultSetPosition = 0;
            if (act != B_NORECS || draw(ST_FAULT, 2))
            {
                Z_Records *rec = (Z_Records *) odr_malloc(o, sizeof(*rec));
                rec->which = Z_Records_DBOSD;
                Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)
                    odr_malloc(o, sizeof(*l));
                rec->u.databaseOrSurDiagnostics = l;
                l->num_records = (int) nret;
                l->records = (Z_NamePlusRecord **)
                    odr_malloc(o, (nret + 1) * sizeof(*l->records));
                for (long long i = 0; i < nret; i++)
                {
                    Z_NamePlusRecord *n = (Z_NamePlusRecord *)
                        odr_malloc(o, sizeof(*n));
                    n->databaseName = act == B_NULLPTR ? 0 :
                        odr_strdup(o, odb(o, s.dbs));
                    n->which = Z_NamePlusRecord_databaseRecord;
                    std::string t = record(r, s, r.start + i);
                    n->u.databaseRecord = z_ext_record_oid(
                        o, q->preferredRecordSyntax ? q->preferredRecordSyntax :
                        yaz_oid_recsyn_xml, t.data(), (int) t.size());
                    if (act == B_NULLPTR)
                        n->u.databaseRecord->direct_reference = 0;
                    if (act == B_ODDENC)
                        odd_encoding(o, n->u.databaseRecord, t);
                    if (act == B_SURR && i == nret / 2)
                        n = zget_surrogateDiagRec(o, odb(o, s.dbs), 14, "surr");
                    if (npr_fn)
                        npr_fn(o, &n, s, r.start + i);
                    l->records[i] = n;
                }
                p->records = rec;
            }
            if (act == B_NRET_LIE)
                *p->numberOfRecordsReturned = nret + 3;
            break;
        }
        case Z_APDU_scanRequest:
        {
            res = zget_APDU(o, Z_APDU_scanResponse);
            Z_ScanResponse *p = res->u.scanResponse;
            ref = &p->referenceId;
            // terms around the start point
            std::vector<std::string> t = scan_terms;
            size_t ix = 0;
            while (ix < t.size() && t[ix] < r.term)
                ix++;
            long long from = (long long) ix - (r.start - 1);
            std::vector<std::string> out;
            long long pos = r.start;
            if (from < 0)
            {
                pos = ix + 1;
                from = 0;
            }
            for (long long i = from; i < (long long) t.size() &&
                 (long long) out.size() < r.num; i++)
                out.push_back(t[i]);
            *p->scanStatus = act == B_DIAG ? Z_Scan_failure :
                (long long) out.size() == r.num ? Z_Scan_success : Z_Scan_partial_5;
            if (act == B_DIAG)
                out.clear();
            p->positionOfTerm = odr_intdup(o, pos);
            *p->numberOfEntriesReturned = (Odr_int) out.size();
            Z_ListEntries *le = (Z_ListEntries *) odr_malloc(o, sizeof(*le));
            p->entries = le;
            le->num_entries = (int) out.size();
            le->entries = (Z_Entry **) odr_malloc(o, (out.size() + 1) * sizeof(void *));
            le->nonsurrogateDiagnostics = 0;
            le->num_nonsurrogateDiagnostics = 0;
            for (size_t i = 0; i < out.size(); i++)
            {
                Z_Entry *e = (Z_Entry *) odr_malloc(o, sizeof(*e));
                e->which = Z_Entry_termInfo;
                Z_TermInfo *ti = (Z_TermInfo *) odr_malloc(o, sizeof(*ti));
                memset(ti, 0, sizeof *ti);
                e->u.termInfo = ti;
                ti->term = (Z_Term *) odr_malloc(o, sizeof(Z_Term));
                ti->term->which = Z_Term_general;
                ti->term->u.general = odr_create_Odr_oct(o, out[i].data(),
                                                         (int) out[i].size());
                ti->globalOccurrences = odr_intdup(o, (Odr_int) scan_count(host, out[i]));
                le->entries[i] = e;
            }
            if (act == B_DIAG)
            {
                le->num_nonsurrogateDiagnostics = 1;
                le->nonsurrogateDiagnostics = (Z_DiagRec **)
                    odr_malloc(o, sizeof(void *));
                le->nonsurrogateDiagnostics[0] = zget_DiagRec(o, 2, "scan");
            }
            if (act == B_NULLPTR)
                p->entries = 0;
            break;
        }
        case Z_APDU_sortRequest:
        {
            res = zget_APDU(o, Z_APDU_sortResponse);
            ref = &res->u.sortResponse->referenceId;
            *res->u.sortResponse->sortStatus = Z_SortResponse_success;
            Z_SortRequest *q = a->u.sortRequest;
            if (q->num_inputResultSetNames > 0 &&
                c->sets.count(q->inputResultSetNames[0]))
                c->sets[r.set] = c->sets[q->inputResultSetNames[0]];
            break;
        }
        case Z_APDU_deleteResultSetRequest:
            res = zget_APDU(o, Z_APDU_deleteResultSetResponse);
            ref = &res->u.deleteResultSetResponse->referenceId;
            break;
        case Z_APDU_extendedServicesRequest:
            res = zget_APDU(o, Z_APDU_extendedServicesResponse);
            ref = &res->u.extendedServicesResponse->referenceId;
            break;
        default:
            res = zget_APDU(o, Z_APDU_close);
            break;
        }
        if (act == B_WRONG_APDU)
        {
            static const int kinds[] = { Z_APDU_initResponse,
                Z_APDU_searchResponse, Z_APDU_presentResponse,
                Z_APDU_scanResponse, Z_APDU_deleteResultSetResponse,
                Z_APDU_searchRequest, Z_APDU_sortResponse };
            int w = kinds[draw(ST_FAULT, 7)];
            if (w == res->which)
                w = Z_APDU_triggerResourceControlRequest;
            res = zget_APDU(o, w);
            ref = 0;
            if (w == Z_APDU_searchRequest)
                res = zget_APDU(o, Z_APDU_close);
        }
        if (act == B_CLOSE_APDU)
        {
            res = zget_APDU(o, Z_APDU_close);
            ref = 0;
            res->u.close->diagnosticInformation = odr_strdup(o, "backend bye");
        }
        if (ref)
            *ref = act == B_BADREF ? mkref(o, "bogus") : mkref(o, r.refid);
        std::string out = o.encode(res);
        if (out.empty())
            violation("harness", "backend cannot encode %d", res->which);
        if (act == B_GARBAGE)
        {
            out = "\x7f garbage \x01\x02\x03 \r\n\r\n";
            out += std::string(draw(ST_FAULT, 60), (char) 0xb5);
        }
        if (act == B_PARTIAL)
            out.resize(1 + draw(ST_FAULT, (unsigned) out.size() - 1));
        if (act == B_EXTRA)
            out += out;
        if (one_at_a_time)
        {
            char b[4096];
            long n = env_read(c->st.s, b, sizeof b, now());
            if (n > 0)
                c->st.buf.append(b, n);
            if (!c->st.buf.empty())
                violation("pipelined", "backend %s: a second request on a connection "
                          "whose request %s is unanswered", host.c_str(),
                          r.refid.c_str());
        }
        c->outstanding--;
        if (!c->st.write(out))
        {
            bye(false);
            return;
        }
        if (act == B_PARTIAL || act == B_CLOSE_APDU)
        {
            bye(false);
            return;
        }
    }
}
// ------------------------------------------------------------------- HTTP
bool HClient::connect(int port)
{
    st.s = env_connect(ip, "proxy", port ? port : PROXY_PORT, now() + timeout);
    st.buf.clear();
    open = st.s != 0;
    return open;
}
void HClient::close()
{
    if (open)
        env_close(st.s);
    open = false;
}
Resp HClient::recv()
{
    Resp r;
    r.kind = st.read(r.m, now() + timeout);
    // a response without length ends at EOF
    if (r.kind == RK_EOF && !st.buf.empty())
    {
        MsgP m(new Msg);
        if (m->decode(st.buf))
        {
            r.kind = RK_MSG;
            r.m = m;
        }
        st.buf.clear();
    }
    if (r.kind == RK_MSG)
        parse_resp(r);
    log("http client %u <- %s", actor, r.show().c_str());
    return r;
}
std::string HClient::b_get(const std::string &path, bool keep,
                           const std::string &hdr, const std::string &ver)
{
    return "GET " + path + " HTTP/" + ver + "\r\nHost: proxy\r\n" +
        (keep ? "" : "Connection: close\r\n") + hdr + "\r\n";
}
std::string HClient::b_post(const std::string &path, const std::string &body,
                            bool keep, const std::string &hdr)
{
    return "POST " + path + " HTTP/1.1\r\nHost: proxy\r\n" +
        (keep ? "" : "Connection: close\r\n") + hdr +
        strf("Content-Length: %zu\r\n\r\n", body.size()) + body;
}
void HServer::start()
{
    listener = env_listen(host, port);
    SockP l = listener;
    spawn(strf("hsrv-%s", host.c_str()).c_str(), [this, l] {
        for (;;)
        {
            SockP s = env_accept(l, -1);
            if (!s)
                return;
            int id = nconn++;
            nopen++;
            spawn("hconn", [this, s, id] {
                Stream st;
                st.s = s;
                for (;;)
                {
                    MsgP m;
                    RK k = st.read(m, -1);
                    if (k != RK_MSG || !m->hreq())
                        break;
                    nreq++;
                    Reply rp = handler(m->hreq(), id);
                    if (rp.delay)
                        sleep_us(rp.delay);
                    if (rp.act == B_CLOSE || rp.act == B_RESET)
                    {
                        if (rp.act == B_RESET)
                            env_reset(s);
                        break;
                    }
                    if (rp.act == B_SILENT)
                        continue;
                    std::string out = strf("HTTP/1.1 %d X\r\n", rp.code) +
                        rp.hdr + strf("Content-Length: %zu\r\n\r\n",
                                      rp.body.size()) + rp.body;
                    if (!rp.raw.empty())
                        out = rp.raw;
                    if (rp.act == B_GARBAGE)
                        out = "\x16\x03garbage\r\n\r\n\x01\x02";
                    if (rp.act == B_PARTIAL)
                        out.resize(1 + draw(ST_FAULT, (unsigned) out.size() - 1));
                    if (!st.write(out))
                        break;
                    if (rp.act == B_PARTIAL || rp.close)
                        break;
                }
                nopen--;
                env_close(s);
            }, actor_base + id + 1);
        }
    }, actor_base);
}
void HServer::stop() { env_close(listener); }

// ------------------------------------------------------------------ proxy
static int g_ptid = -1;
int proxy_tid() { return g_ptid; }
std::string mp_config(const std::string &body)
{
    return "<?xml version=\"1.0\"?>\n"
        "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" version=\"1.0\">\n"
        "<start route=\"start\"/>\n" + body + "</metaproxy>\n";
}
std::string frontend(int port, const std::string &extra, int threads,
                     const std::string &port_attrs)
{
    std::string s = "<filter type=\"frontend_net\">\n";
    if (threads)
        s += strf("<threads>%d</threads>\n", threads);
    s += strf("<port%s>@:%d</port>\n",
              port_attrs.empty() ? "" : (" " + port_attrs).c_str(), port);
    s += extra + "</filter>\n";
    return s;
}
void start_proxy(const std::string &xml)
{
    int fd = (int) syscall(SYS_memfd_create, "mpconf", 0);
    if (fd < 0 || ::write(fd, xml.data(), xml.size()) != (ssize_t) xml.size())
        violation("harness", "memfd");
    if (verbose())
        fprintf(stderr, "%s", xml.c_str());
    static std::string path = strf("/proc/self/fd/%d", fd);
    static bool logs = chance(ST_KNOB, 1, 3) || getenv("MPSIM_LOG");
    g_ptid = spawn("mp-main", [] {
        set_main_tid(self_id());
        proxy_thread_begin("mp-main");
        static char a0[] = "metaproxy", a1[] = "-v", a2[] = "none",
            a2b[] = "log,warn,fatal,errno", a3[] = "-X", a4[] = "-c";
        char *argv[] = { a0, a1, logs ? a2b : a2, a3, a4,
                         (char *) path.c_str(), 0 };
        mp_main(6, argv);
    }, 50);
}
// from now on the system may be out of threads
void thread_faults()
{
    if (!chance(ST_KNOB, 1, 8))
        return;
    unsigned den = 1 + draw(ST_KNOB, 4);
    sleep_us(SEC);                         // the first ones are there
    K.thread_fail_den = den;
}
extern bool has_listener(int port);
void wait_listen(int port)
{
    if (!block("wait_listen", [port] { return has_listener(port) || proxy_exited(); },
               now() + 60 * SEC) || proxy_exited())
        violation("no-start", "proxy does not listen on %d (exit %d)", port,
                  proxy_exited() ? proxy_exit_code() : -1);
}
}
