// Helpers shared by the filter harnesses.
#ifndef ZH_HPP
#define ZH_HPP
#include "mc.hpp"
#include "vnet.hpp"
#include <metaproxy/package.hpp>
#include <metaproxy/util.hpp>
#include <metaproxy/filter.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/xmlutil.hpp>
#include <yaz/zgdu.h>
#include <yaz/oid_db.h>
#include <yaz/oid_std.h>
#include <yaz/pquery.h>
#include <yaz/diagbib1.h>
#include <yaz/otherinfo.h>
#include <yaz/log.h>
#include <yaz/querytowrbuf.h>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/xtime.hpp>
#include <functional>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

namespace mp = metaproxy_1;
namespace yf = mp::filter;

namespace zh {

// scripted filter
struct Fn : public yf::Base {
    std::function<void(mp::Package &)> f;
    Fn() {}
    Fn(const std::function<void(mp::Package &)> &x) : f(x) {}
    void process(mp::Package &p) const { f(p); }
    void configure(const xmlNode *, bool, const char *) {}
};

struct Xml {
    xmlDoc *d;
    Xml(const std::string &s) { d = xmlParseMemory(s.c_str(), (int) s.size());
        if (!d) mc::fail("harness:xml", "bad xml %s", s.c_str()); }
    ~Xml() { xmlFreeDoc(d); }
    const xmlNode *root() const { return xmlDocGetRootElement(d); }
};

inline void configure(yf::Base &f, const std::string &x)
{
    Xml d(x);
    f.configure(d.root(), false, 0);
}
inline bool configure_ok(yf::Base &f, const std::string &x, std::string *err = 0)
{
    Xml d(x);
    try { f.configure(d.root(), false, 0); }
    catch (std::exception &e) { if (err) *err = e.what(); return false; }
    return true;
}

inline Odr_oct *oct(ODR o, const std::string &s)
{
    return odr_create_Odr_oct(o, s.data(), (int) s.size());
}
inline std::string str(const Odr_oct *o)
{
    return o ? std::string((const char *) o->buf, o->len) : "";
}

// ---- requests
inline void set_ref(ODR o, Z_APDU *a, const std::string &ref)
{
    if (ref.empty())
        return;
    Z_ReferenceId **r = mp::util::get_referenceId(a);
    if (r)
        *r = oct(o, ref);
}
inline std::string get_ref(const Z_APDU *a)
{
    Z_ReferenceId **r = mp::util::get_referenceId(a);
    return r && *r ? str(*r) : "";
}
inline Z_APDU *init_req(ODR o, const std::string &ref = "",
                        const std::string &vhost = "",
                        const std::string &user = "", const std::string &pw = "")
{
    Z_APDU *a = zget_APDU(o, Z_APDU_initRequest);
    Z_InitRequest *r = a->u.initRequest;
    ODR_MASK_SET(r->options, Z_Options_search);
    ODR_MASK_SET(r->options, Z_Options_present);
    ODR_MASK_SET(r->options, Z_Options_scan);
    ODR_MASK_SET(r->options, Z_Options_namedResultSets);
    ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_1);
    ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_2);
    ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_3);
    if (vhost.size())
        mp::util::set_vhost_otherinfo(&r->otherInfo, o, vhost, 1);
    if (user.size())
    {
        Z_IdAuthentication *au = (Z_IdAuthentication *) odr_malloc(o, sizeof *au);
        au->which = Z_IdAuthentication_idPass;
        au->u.idPass = (Z_IdPass *) odr_malloc(o, sizeof *au->u.idPass);
        au->u.idPass->groupId = 0;
        au->u.idPass->userId = odr_strdup(o, user.c_str());
        au->u.idPass->password = odr_strdup(o, pw.c_str());
        r->idAuthentication = au;
    }
    set_ref(o, a, ref);
    return a;
}
inline void set_dbs(ODR o, int *num, char ***p, const std::vector<std::string> &dbs)
{
    *num = (int) dbs.size();
    *p = (char **) odr_malloc(o, sizeof(char *) * (dbs.size() + 1));
    for (size_t i = 0; i < dbs.size(); i++)
        (*p)[i] = odr_strdup(o, dbs[i].c_str());
}
inline Z_APDU *search_req(ODR o, const std::string &pqf, const std::string &rs,
                          const std::vector<std::string> &dbs,
                          bool replace = true, const std::string &ref = "")
{
    Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest);
    Z_SearchRequest *r = a->u.searchRequest;
    set_dbs(o, &r->num_databaseNames, &r->databaseNames, dbs);
    *r->replaceIndicator = replace;
    r->resultSetName = odr_strdup(o, rs.c_str());
    mp::util::pqf(o, a, pqf);
    set_ref(o, a, ref);
    return a;
}
inline Z_APDU *present_req(ODR o, const std::string &rs, int start, int n,
                           const Odr_oid *syntax = 0, const char *esn = 0,
                           const std::string &ref = "")
{
    Z_APDU *a = zget_APDU(o, Z_APDU_presentRequest);
    Z_PresentRequest *r = a->u.presentRequest;
    r->resultSetId = odr_strdup(o, rs.c_str());
    *r->resultSetStartPoint = start;
    *r->numberOfRecordsRequested = n;
    if (syntax)
        r->preferredRecordSyntax = odr_oiddup(o, syntax);
    if (esn)
    {
        r->recordComposition = (Z_RecordComposition *)
            odr_malloc(o, sizeof(Z_RecordComposition));
        r->recordComposition->which = Z_RecordComp_simple;
        r->recordComposition->u.simple = (Z_ElementSetNames *)
            odr_malloc(o, sizeof(Z_ElementSetNames));
        r->recordComposition->u.simple->which = Z_ElementSetNames_generic;
        r->recordComposition->u.simple->u.generic = odr_strdup(o, esn);
    }
    set_ref(o, a, ref);
    return a;
}
inline Z_APDU *scan_req(ODR o, const std::string &db, const std::string &term,
                        int n, int pos, const std::string &ref = "")
{
    Z_APDU *a = zget_APDU(o, Z_APDU_scanRequest);
    Z_ScanRequest *r = a->u.scanRequest;
    std::vector<std::string> d;
    d.push_back(db);
    set_dbs(o, &r->num_databaseNames, &r->databaseNames, d);
    YAZ_PQF_Parser pp = yaz_pqf_create();
    r->termListAndStartPoint = yaz_pqf_scan(pp, o, &r->attributeSet,
                                            ("@attr 1=4 \"" + term + "\"").c_str());
    yaz_pqf_destroy(pp);
    *r->numberOfTermsRequested = n;
    r->preferredPositionInResponse = odr_intdup(o, pos);
    set_ref(o, a, ref);
    return a;
}
inline Z_GDU *http_req(ODR o, const std::string &path, const char *method = "GET",
                       const std::string &body = "")
{
    Z_GDU *g = z_get_HTTP_Request(o);
    g->u.HTTP_Request->path = odr_strdup(o, path.c_str());
    g->u.HTTP_Request->method = odr_strdup(o, method);
    if (body.size())
    {
        g->u.HTTP_Request->content_buf = odr_strdup(o, body.c_str());
        g->u.HTTP_Request->content_len = (int) body.size();
    }
    return g;
}
inline std::string query(const Z_Query *q)
{
    WRBUF b = wrbuf_alloc();
    if (q)
        yaz_query_to_wrbuf(b, q);
    std::string s = wrbuf_cstr(b);
    wrbuf_destroy(b);
    return s;
}
// diagnostics of a record block: "d:<code>:<addinfo>"
inline std::string diag(const Z_DefaultDiagFormat *d)
{
    if (!d)
        return "d:?";
    return "d:" + std::to_string(d->condition ? (long) *d->condition : -1) + ":"
        + (d->u.v2Addinfo ? d->u.v2Addinfo : "");
}
inline std::string oid(const Odr_oid *o)
{
    char b[OID_STR_MAX];
    return o ? oid_oid_to_dotstring(o, b) : "-";
}
inline std::string ext(const Z_External *e)
{
    if (!e)
        return "-";
    switch (e->which)
    {
    case Z_External_octet:
        return str(e->u.octet_aligned);
    case Z_External_sutrs:
        return "s=" + str(e->u.sutrs);
    default:
        return "ext" + std::to_string(e->which);
    }
}
inline std::string npr(const Z_NamePlusRecord *n)
{
    std::string s = n->databaseName ? std::string("[") + n->databaseName + "]" : "";
    if (n->which == Z_NamePlusRecord_databaseRecord)
        return s + ext(n->u.databaseRecord);
    if (n->which == Z_NamePlusRecord_surrogateDiagnostic)
        return s + "surr:" + (n->u.surrogateDiagnostic->which
                              == Z_DiagRec_defaultFormat
                              ? diag(n->u.surrogateDiagnostic->u.defaultFormat)
                              : "ext");
    return s + "?";
}
inline std::string records(const Z_Records *r)
{
    if (!r)
        return "none";
    std::string s;
    switch (r->which)
    {
    case Z_Records_DBOSD:
        s = "recs(";
        for (int i = 0; i < r->u.databaseOrSurDiagnostics->num_records; i++)
            s += (i ? "," : "") + npr(r->u.databaseOrSurDiagnostics->records[i]);
        return s + ")";
    case Z_Records_NSD:
        return diag(r->u.nonSurrogateDiagnostic);
    case Z_Records_multipleNSD:
        s = "multi(";
        for (int i = 0; i < r->u.multipleNonSurDiagnostics->num_diagRecs; i++)
            s += r->u.multipleNonSurDiagnostics->diagRecs[i]->which
                == Z_DiagRec_defaultFormat
                ? diag(r->u.multipleNonSurDiagnostics->diagRecs[i]->u.defaultFormat)
                : "ext";
        return s + ")";
    }
    return "?";
}
// readable summary of any PDU
inline std::string desc(const Z_GDU *g)
{
    if (!g)
        return "-";
    if (g->which == Z_GDU_HTTP_Response)
    {
        Z_HTTP_Response *h = g->u.HTTP_Response;
        return "http" + std::to_string(h->code) + ":"
            + std::string(h->content_buf ? h->content_buf : "", h->content_len);
    }
    if (g->which == Z_GDU_HTTP_Request)
        return std::string("httpreq:") + g->u.HTTP_Request->path;
    const Z_APDU *a = g->u.z3950;
    std::string ref = get_ref(a);
    std::string s;
    switch (a->which)
    {
    case Z_APDU_initRequest:
        s = "initreq";
        break;
    case Z_APDU_initResponse:
    {
        int c = 0;
        std::string ai;
        mp::util::get_init_diagnostics(a->u.initResponse, c, ai);
        s = std::string("init:") + (*a->u.initResponse->result ? "ok" : "fail");
        if (c)
            s += ":" + std::to_string(c) + ":" + ai;
        break;
    }
    case Z_APDU_searchRequest:
        s = std::string("searchreq:") + a->u.searchRequest->resultSetName + ":";
        for (int i = 0; i < a->u.searchRequest->num_databaseNames; i++)
            s += std::string(i ? "+" : "") + a->u.searchRequest->databaseNames[i];
        s += ":" + query(a->u.searchRequest->query);
        break;
    case Z_APDU_searchResponse:
    {
        Z_SearchResponse *r = a->u.searchResponse;
        s = "search:" + std::to_string(*r->resultCount) + ":"
            + (*r->searchStatus ? "ok" : "fail") + ":ret"
            + std::to_string(*r->numberOfRecordsReturned) + ":next"
            + std::to_string(*r->nextResultSetPosition) + ":" + records(r->records);
        break;
    }
    case Z_APDU_presentRequest:
        s = std::string("presentreq:") + a->u.presentRequest->resultSetId + ":"
            + std::to_string(*a->u.presentRequest->resultSetStartPoint) + "+"
            + std::to_string(*a->u.presentRequest->numberOfRecordsRequested);
        break;
    case Z_APDU_scanRequest:
        s = "scanreq:" + std::to_string(*a->u.scanRequest->numberOfTermsRequested)
            + "@" + (a->u.scanRequest->preferredPositionInResponse
                     ? std::to_string(*a->u.scanRequest->preferredPositionInResponse)
                     : std::string("-")) + ":";
        for (int i = 0; i < a->u.scanRequest->num_databaseNames; i++)
            s += std::string(i ? "+" : "") + a->u.scanRequest->databaseNames[i];
        if (a->u.scanRequest->termListAndStartPoint
            && a->u.scanRequest->termListAndStartPoint->term->which
            == Z_Term_general)
            s += ":" + str(a->u.scanRequest->termListAndStartPoint->term->u.general);
        break;
    case Z_APDU_deleteResultSetRequest:
        s = "deletereq";
        break;
    case Z_APDU_presentResponse:
    {
        Z_PresentResponse *r = a->u.presentResponse;
        s = "present:st" + std::to_string(*r->presentStatus) + ":ret"
            + std::to_string(*r->numberOfRecordsReturned) + ":next"
            + std::to_string(*r->nextResultSetPosition) + ":" + records(r->records);
        break;
    }
    case Z_APDU_scanResponse:
    {
        Z_ScanResponse *r = a->u.scanResponse;
        s = "scan:st" + std::to_string(*r->scanStatus) + ":n"
            + std::to_string(*r->numberOfEntriesReturned) + ":pos"
            + (r->positionOfTerm ? std::to_string(*r->positionOfTerm) : "-") + ":";
        if (r->entries)
        {
            for (int i = 0; i < r->entries->num_entries; i++)
            {
                Z_Entry *e = r->entries->entries[i];
                if (e->which == Z_Entry_termInfo)
                {
                    Z_TermInfo *t = e->u.termInfo;
                    s += (i ? "," : "") + (t->term->which == Z_Term_general
                         ? str(t->term->u.general) : std::string("?"));
                    s += "=" + (t->globalOccurrences
                                ? std::to_string(*t->globalOccurrences)
                                : std::string("-"));
                }
                else
                    s += "surr";
            }
            for (int i = 0; i < r->entries->num_nonsurrogateDiagnostics; i++)
                s += "!" + (r->entries->nonsurrogateDiagnostics[i]->which
                            == Z_DiagRec_defaultFormat
                            ? diag(r->entries->nonsurrogateDiagnostics[i]
                                   ->u.defaultFormat) : std::string("ext"));
        }
        break;
    }
    case Z_APDU_close:
        s = "close:" + std::to_string(*a->u.close->closeReason) + ":"
            + (a->u.close->diagnosticInformation
               ? a->u.close->diagnosticInformation : "");
        break;
    case Z_APDU_deleteResultSetResponse:
        s = "delete:" + std::to_string(*a->u.deleteResultSetResponse
                                       ->deleteOperationStatus);
        break;
    case Z_APDU_sortResponse:
        s = "sort:" + std::to_string(*a->u.sortResponse->sortStatus);
        break;
    default:
        s = "apdu" + std::to_string(a->which);
    }
    if (ref.size())
        s += "#" + ref;
    return s;
}
inline std::string desc(const std::string &bytes)
{
    ODR o = odr_createmem(ODR_DECODE);
    std::string s = desc(vnet::decode(bytes, o));
    odr_destroy(o);
    return s;
}

// ---- responses
inline Z_NamePlusRecord *rec(ODR o, const std::string &db, const std::string &data,
                             const Odr_oid *syn = yaz_oid_recsyn_xml)
{
    Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(o, sizeof *n);
    n->databaseName = db.size() ? odr_strdup(o, db.c_str()) : 0;
    n->which = Z_NamePlusRecord_databaseRecord;
    n->u.databaseRecord = z_ext_record_oid(o, syn, data.data(), (int) data.size());
    return n;
}
inline Z_Records *recs(ODR o, const std::vector<Z_NamePlusRecord *> &v)
{
    Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r);
    r->which = Z_Records_DBOSD;
    r->u.databaseOrSurDiagnostics = (Z_NamePlusRecordList *)
        odr_malloc(o, sizeof(Z_NamePlusRecordList));
    r->u.databaseOrSurDiagnostics->num_records = (int) v.size();
    r->u.databaseOrSurDiagnostics->records = (Z_NamePlusRecord **)
        odr_malloc(o, sizeof(void *) * (v.size() + 1));
    for (size_t i = 0; i < v.size(); i++)
        r->u.databaseOrSurDiagnostics->records[i] = v[i];
    return r;
}

// a router with the main route and any number of named routes
struct Routes : public mp::Router {
    std::map<std::string, std::vector<const yf::Base *> > r;
    struct Pos : public mp::RoutePos {
        const Routes *o;
        std::string route;
        size_t i;
        const yf::Base *move(const char *n)
        {
            if (n && *n)
            {
                route = n;
                i = 0;
            }
            auto it = o->r.find(route);
            if (it == o->r.end() || i >= it->second.size())
                return 0;
            return it->second[i++];
        }
        mp::RoutePos *clone()
        {
            Pos *p = new Pos;
            p->o = o, p->route = route, p->i = i;
            return p;
        }
    };
    mp::RoutePos *createpos() const
    {
        Pos *p = new Pos;
        p->o = this, p->i = 0;
        return p;
    }
    void start() {}
    void stop(int) {}
};

// send one request through a router; returns the description of the answer
struct Client {
    mp::Session session;
    mp::Origin origin;
    const mp::Router *router;
    bool closed;
    Client(const mp::Router &r, const char *addr = "1.2.3.4 @:9000")
        : router(&r), closed(false)
    {
        origin.set_tcpip_address(addr, session.id());
    }
    std::string send(Z_GDU *g, const std::function<void(mp::Package &)> &look
                     = nullptr)
    {
        mp::Package p(session, origin);
        p.request() = yazpp_1::GDU(g);
        p.router(*router);
        p.move();
        closed = p.session().is_closed();
        if (look)
            look(p);
        return desc(p.response().get()) + (closed ? "!closed" : "");
    }
    std::string send(Z_APDU *a, const std::function<void(mp::Package &)> &look
                     = nullptr)
    {
        Z_GDU g;
        g.which = Z_GDU_Z3950;
        g.u.z3950 = a;
        return send(&g, look);
    }
    // the connection went away
    void close()
    {
        session.close();
        mp::Package p(session, origin);
        p.router(*router);
        p.move();
    }
};

inline std::vector<std::string> v(const char *a, const char *b = 0, const char *c = 0)
{
    std::vector<std::string> r;
    if (a) r.push_back(a);
    if (b) r.push_back(b);
    if (c) r.push_back(c);
    return r;
}
// no logging; also triggers one-time initialisation of the thread library
inline void quiet()
{
    static bool done;
    if (done)
        return;
    done = true;
    yaz_log_init_level(0);
    boost::mutex m;
    boost::condition c;
    boost::mutex::scoped_lock l(m);
    boost::xtime xt;
    boost::xtime_get(&xt, boost::TIME_UTC_);
    c.timed_wait(l, xt);
    boost::thread t([]() { });
    t.join();
}
}
#endif
