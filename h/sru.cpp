// SRU gateway.
// ONLY: filter_sru_to_z3950 filter_zeerex_explain sru_util package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_sru_to_z3950.hpp"
#include "filter_zeerex_explain.hpp"
#include "sru_util.hpp"
#include <iostream>
#include <sstream>
#include <yaz/srw.h>
#include <yaz/diagsrw.h>

static std::string text(xmlNode *n)
{
    xmlChar *t = xmlNodeGetContent(n);
    std::string s = t ? (const char *) t : "";
    xmlFree(t);
    return s;
}

struct Rec { std::string pos, schema, packing, data, diag; };

// an SRU response
struct Res {
    std::string kind, hits, next, pi, raw;
    std::vector<Rec> recs;
    std::vector<std::string> diags;
    std::string summary() const
    {
        std::string s = kind + " hits " + hits + " next " + next;
        for (auto &r : recs)
            s += " [" + r.pos + " " + r.schema + " " + r.packing + " " + r.data
                + " " + r.diag + "]";
        for (auto &d : diags)
            s += " !" + d;
        return s;
    }
};

static std::string diagnostic(xmlNode *d)
{
    std::string u, t;
    for (xmlNode *n = d->children; n; n = n->next)
        if (n->type == XML_ELEMENT_NODE)
        {
            if (!strcmp((const char *) n->name, "uri"))
                u = text(n);
            if (!strcmp((const char *) n->name, "details"))
                t = text(n);
        }
    size_t k = u.rfind('/');
    return (k == std::string::npos ? u : u.substr(k + 1)) + ":" + t;
}

static void parse(xmlNode *n, Res &r)
{
    for (; n; n = n->next)
    {
        if (n->type == XML_PI_NODE)
            r.pi = text(n);
        if (n->type != XML_ELEMENT_NODE)
            continue;
        std::string name = (const char *) n->name;
        if (name == "numberOfRecords")
            r.hits = text(n);
        else if (name == "nextRecordPosition")
            r.next = text(n);
        else if (name == "diagnostic")
            r.diags.push_back(diagnostic(n));
        else if (name == "record")
        {
            Rec x;
            for (xmlNode *c = n->children; c; c = c->next)
            {
                if (c->type != XML_ELEMENT_NODE)
                    continue;
                std::string k = (const char *) c->name;
                if (k == "recordPosition")
                    x.pos = text(c);
                else if (k == "recordSchema")
                    x.schema = text(c);
                else if (k == "recordPacking" || k == "recordXMLEscaping")
                    x.packing = text(c);
                else if (k == "recordData")
                {
                    xmlNode *e = c->children;
                    while (e && e->type != XML_ELEMENT_NODE)
                        e = e->next;
                    if (e && !strcmp((const char *) e->name, "diagnostic"))
                        x.diag = diagnostic(e);
                    else if (e)
                    {
                        xmlBufferPtr b = xmlBufferCreate();
                        xmlNodeDump(b, e->doc, e, 0, 0);
                        x.data = (const char *) b->content;
                        xmlBufferFree(b);
                    }
                    else
                    {
                        x.data = text(c);
                        xmlDoc *d = x.data.compare(0, 11, "<diagnostic") ? 0
                            : xmlParseMemory(x.data.data(), x.data.size());
                        if (d)
                            x.diag = diagnostic(xmlDocGetRootElement(d));
                        xmlFreeDoc(d);
                        x.data = d ? "" : "'" + x.data + "'";
                    }
                }
            }
            r.recs.push_back(x);
        }
        else
        {
            if (name.find("Response") != std::string::npos && name.size() > 10)
                r.kind = name;
            parse(n->children, r);
        }
    }
}

enum { OK, DIAG, MULTI, CLOSE, DROP, SILENT, WRONG, FALSE_, EMPTY, MORE, NREPLY };
static const char *const rnames[] = { "ok", "diagnostic", "diagnostics", "Close",
    "lost", "silent", "wrong response", "status false", "no records",
    "too many records" };

struct Srv : public zh::Fn {
    bool open, yield;
    int hits, cap, bad, badat, odd, asked;  // badat: 1 Init 2 search 3 present
    std::string init, search, present;      // descriptions of the requests
    Srv() : open(false), yield(false), hits(0), cap(0), bad(OK), badat(0), odd(0),
            asked(0)
    {
        f = [this](mp::Package &p) { serve(p); };
    }
    static std::string body(long i) { return "<r>" + std::to_string(i) + "</r>"; }
    int fault(int at, std::initializer_list<int> l)
    {
        if (yield)
            return OK;
        int k = mc::choose(1 + l.size(), mc::FAULT);
        if (!k)
            return OK;
        badat = at;
        bad = l.begin()[k - 1];
        mc::note("%s at %d", rnames[bad], at);
        return bad;
    }
    bool common(mp::Package &p, int k, Z_APDU *a, mp::odr &o)
    {
        switch (k)
        {
        case CLOSE:
            p.response() = o.create_close(a, Z_Close_systemProblem, "gone");
            // fall through
        case DROP:
            p.session().close();
            open = false;
            return true;
        case WRONG:
            p.response() = o.create_APDU(Z_APDU_scanResponse, a);
            return true;
        case SILENT:
            return true;
        }
        return false;
    }
    Z_Records *multi(ODR o)
    {
        Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r);
        r->which = Z_Records_multipleNSD;
        Z_DiagRecs *d = (Z_DiagRecs *) odr_malloc(o, sizeof *d);
        d->num_diagRecs = 1;
        d->diagRecs = (Z_DiagRec **) odr_malloc(o, sizeof(void *));
        d->diagRecs[0] = zget_DiagRec(o, 2, "mm");
        r->u.multipleNonSurDiagnostics = d;
        return r;
    }
    void serve(mp::Package &p)
    {
        if (yield)
            mc::point("server");
        mc::NoRace nr;
        Z_GDU *g = p.request().get();
        if (p.session().is_closed())
            open = false;
        if (!g || g->which != Z_GDU_Z3950)
            return;
        mp::odr o;
        ODR od = o;
        Z_APDU *a = g->u.z3950;
        if (++asked > 30)
            mc::fail("endless", "more than 30 requests for one");
        switch (a->which)
        {
        case Z_APDU_initRequest:
        {
            if (open)
                mc::fail("session", "Init in a session that is not ended");
            Z_InitRequest *q = a->u.initRequest;
            std::list<std::string> l;
            mp::util::get_vhost_otherinfo(q->otherInfo, l);
            init = "";
            for (auto &x : l)
                init += "v:" + x + " ";
            if (q->idAuthentication)
            {
                if (q->idAuthentication->which == Z_IdAuthentication_open)
                    init += std::string("u:") + q->idAuthentication->u.open + " ";
                else if (q->idAuthentication->which == Z_IdAuthentication_idPass)
                    init += std::string("u:")
                        + q->idAuthentication->u.idPass->userId + "/"
                        + q->idAuthentication->u.idPass->password + " ";
            }
            const char *ip = yaz_oi_get_string_oid(&q->otherInfo,
                                                   yaz_oid_userinfo_client_ip, 1, 0);
            if (ip)
                init += std::string("ip:") + ip + " ";
            open = true;
            int k = fault(1, { DIAG, FALSE_, CLOSE, DROP, SILENT, WRONG });
            if (common(p, k, a, o))
                return;
            Z_APDU *r = o.create_initResponse(a, k == DIAG ? 1011 : 0,
                                              k == DIAG ? "bad pw" : 0);
            if (k == DIAG || k == FALSE_)
                *r->u.initResponse->result = 0;
            p.response() = r;
            return;
        }
        case Z_APDU_searchRequest:
        {
            if (!open)
                mc::fail("session", "search without session");
            search = zh::desc(g);
            int k = fault(2, { DIAG, MULTI, FALSE_, CLOSE, DROP, SILENT, WRONG });
            if (common(p, k, a, o))
                return;
            Z_APDU *r = o.create_searchResponse(a, k == DIAG ? 2 : 0,
                                                k == DIAG ? "dd" : 0);
            Z_SearchResponse *x = r->u.searchResponse;
            if (k == OK)
                *x->resultCount = hits;
            else
                *x->searchStatus = 0;
            if (k == MULTI)
                x->records = multi(od);
            p.response() = r;
            return;
        }
        case Z_APDU_presentRequest:
        {
            if (!open)
                mc::fail("session", "present without session");
            Z_PresentRequest *q = a->u.presentRequest;
            long b = *q->resultSetStartPoint, n = *q->numberOfRecordsRequested;
            present += zh::desc(g) + ":"
                + (q->recordComposition
                   ? q->recordComposition->u.simple->u.generic : "-") + " ";
            if (!q->preferredRecordSyntax
                || oid_oidcmp(q->preferredRecordSyntax, yaz_oid_recsyn_xml))
                mc::fail("syntax", "records requested in another syntax than XML");
            int k = fault(3, { DIAG, MULTI, CLOSE, DROP, SILENT, WRONG, EMPTY,
                               FALSE_, MORE });
            if (common(p, k, a, o))
                return;
            if (k == OK && (b < 1 || n < 1 || b + n - 1 > hits))
                mc::fail("range", "present of %ld+%ld of %d", b, n, hits);
            Z_APDU *r = o.create_presentResponse(a, k == DIAG ? 2 : 0,
                                                 k == DIAG ? "dd" : 0);
            Z_PresentResponse *x = r->u.presentResponse;
            if (k == MULTI)
                x->records = multi(od);
            if (k == EMPTY)
                x->records = zh::recs(od, {});
            if (k == OK || k == MORE)
            {
                if (cap && n > cap)
                    n = cap;
                if (k == MORE)
                    n += 2;
                std::vector<Z_NamePlusRecord *> v;
                for (long i = b; i < b + n; i++)
                {
                    Z_NamePlusRecord *e = zh::rec(od, "db", body(i),
                                                  i == 2 && odd == 1
                                                  ? yaz_oid_recsyn_usmarc
                                                  : yaz_oid_recsyn_xml);
                    if (i == 2 && odd > 1 && odd < 4)
                    {
                        e->which = Z_NamePlusRecord_surrogateDiagnostic;
                        e->u.surrogateDiagnostic = zget_DiagRec(od, 14, "sd");
                        if (odd == 3)
                        {
                            e->u.surrogateDiagnostic->which
                                = Z_DiagRec_externallyDefined;
                            e->u.surrogateDiagnostic->u.externallyDefined
                                = z_ext_record_oid(od, yaz_oid_recsyn_xml, "x", 1);
                        }
                    }
                    if (i == 2 && odd == 4)     // XML syntax, but another type
                    {
                        Z_External *x = e->u.databaseRecord;
                        x->which = Z_External_arbitrary;
                        x->u.arbitrary = (Odr_bitmask *)
                            odr_malloc(od, sizeof(Odr_bitmask));
                        ODR_MASK_ZERO(x->u.arbitrary);
                        ODR_MASK_SET(x->u.arbitrary, 3);
                    }
                    v.push_back(e);
                }
                x->records = zh::recs(od, v);
                *x->numberOfRecordsReturned = v.size();
            }
            p.response() = r;
            return;
        }
        }
        mc::fail("request", "unexpected request %s", zh::desc(g).c_str());
    }
};

static Res http(zh::Client &c, Z_GDU *g, int code = 200, bool closed = false)
{
    Res r;
    std::string d = c.send(g, [&](mp::Package &p) {
        Z_GDU *a = p.response().get();
        if (!a || a->which != Z_GDU_HTTP_Response)
            mc::fail("http", "no HTTP response");
        Z_HTTP_Response *h = a->u.HTTP_Response;
        if (h->code != code)
            mc::fail("http", "HTTP code %d", h->code);
        r.raw = std::string(h->content_buf ? h->content_buf : "", h->content_len);
        if (code != 200)
            return;
        xmlDoc *doc = xmlParseMemory(r.raw.data(), r.raw.size());
        if (!doc)
            mc::fail("xml", "response is not XML: %s", r.raw.c_str());
        parse(doc->children, r);
        xmlFreeDoc(doc);
    });
    if (c.closed != closed)
        mc::fail("connection", "connection %s", c.closed ? "closed" : "left open");
    return r;
}

static Z_GDU *get(ODR o, const std::string &path)
{
    Z_GDU *g = zh::http_req(o, path);
    g->u.HTTP_Request->version = odr_strdup(o, "1.1");
    z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "Host", "h.org:8080");
    return g;
}

static std::string srw(int bib1) { return std::to_string(yaz_diag_bib1_to_srw(bib1)); }

// ranges of records, and failures of the target
MC_SCENARIO(sr_search, 0)
{
    zh::quiet();
    std::string out;
    {
        mp::RouterChain r;
        yf::SRUtoZ3950 f;
        Srv s;
        r.append(f);
        r.append(s);
        int limit = mc::choose(2) * 2;
        zh::configure(f, "<f><database name='db'/>" + std::string(
                          limit ? "<limit retrieve='2'/>" : "") + "</f>");
        static const int hs[] = { 3, 0, 1, 5 };
        s.hits = hs[mc::choose(4)];
        s.cap = mc::choose(3);
        zh::Client c(r);
        int rounds = mc::param("rounds", 1);
        for (int d = 0; d < rounds; d++)
        {
            static const char *const starts[] = { 0, "1", "2", "4", "0", "-1",
                "2000000000" };
            static const char *const maxs[] = { "2", 0, "0", "1", "5", "-1",
                "2000000000" };
            const char *start = starts[mc::choose(rounds > 1 ? 2 : 7)];
            const char *max = maxs[mc::choose(rounds > 1 ? 2 : 7)];
            int pack = rounds > 1 ? 0 : mc::choose(3);
            bool schema = rounds == 1 && pack == 2;
            s.odd = rounds > 1 ? 0 : mc::choose(5);
            s.bad = s.badat = s.asked = 0;
            s.present = "";
            ODR o = odr_createmem(ODR_ENCODE);
            std::string url = "/db?version=1.1&operation=searchRetrieve&query=a";
            if (start)
                url += std::string("&startRecord=") + start;
            if (max)
                url += std::string("&maximumRecords=") + max;
            if (pack)
                url += std::string("&recordPacking=") + (pack == 1 ? "string"
                                                         : "xml");
            if (schema)
                url += "&recordSchema=dc";
            Res res = http(c, get(o, url));
            odr_destroy(o);
            mc::evaluated();
            std::string what = url + " of " + std::to_string(s.hits) + " answered "
                "with " + res.summary();
            if (s.open)
                mc::fail("end", "session to target not ended: %s", what.c_str());
            if (res.kind != "searchRetrieveResponse")
                mc::fail("kind", "%s", what.c_str());
            std::vector<std::string> diags;
            std::string hits = std::to_string(s.hits), next;
            std::vector<Rec> recs;
            long long b = start ? atoll(start) : 1, n = max ? atoll(max) : 0;
            bool partial = false, refused_b = b < 1, refused_n = n < 0;
            if (refused_b)
                b = 1;
            if (refused_n)
                n = 0;
            if (s.bad && s.badat < 3)
                hits = "";
            else if (s.hits && n != 0)
            {
                if (b > s.hits)
                    diags.push_back("61:");
                if (diags.empty())
                {
                    if (limit && n > limit)
                        n = limit;
                    long long e = n > s.hits - b + 1 ? s.hits : b + n - 1;
                    for (long long i = b; i <= e; i++)
                    {
                        Rec x;
                        x.pos = std::to_string(i);
                        x.packing = pack == 1 ? "string" : "xml";
                        x.schema = schema ? "dc" : "";
                        x.data = pack == 1 ? "'" + Srv::body(i) + "'"
                            : Srv::body(i);
                        if (i == 2 && s.odd)
                        {
                            x.data = "";
                            x.diag = s.odd == 1 || s.odd == 4 ? "67:"
                                : s.odd == 3 ? "64:"
                                : srw(14) + ":sd";
                        }
                        recs.push_back(x);
                    }
                    if (e < s.hits)
                        next = std::to_string(e + 1);
                }
            }
            if (s.bad == DIAG)
                diags.push_back(s.badat == 1 ? srw(1011) + ":bad pw"
                                : srw(2) + ":dd");
            else if (s.bad == MULTI)
                diags.push_back(srw(2) + ":mm");
            else if (s.bad == FALSE_ && s.badat == 1)
                diags.push_back("3:");
            else if (s.badat == 3 && (s.bad == EMPTY || s.bad == FALSE_))
                partial = true;
            else if (s.bad && s.bad != MORE)
                diags.push_back(s.badat == 1 ? "2:sru_z3950: expected initResponse"
                                : "2:");
            if (s.bad && s.badat == 3 && s.bad != MORE && !partial)
            {
                recs.clear();
                next = "";
            }
            if (res.hits != hits && !(s.badat == 2 && (res.hits == "0")))
                mc::fail("hits", "%s (%s)", what.c_str(), rnames[s.bad]);
            // values that are refused, and then ignored
            bool found = false, found1 = false;
            for (auto &x : res.diags)
                found = found || x == "6:maximumRecords",
                    found1 = found1 || x == "6:startRecord";
            if (refused_n && !found && !s.bad)
                mc::fail("diagnostics", "%s: maximum not refused", what.c_str());
            if (refused_b && !found1 && !s.bad)
                mc::fail("diagnostics", "%s: start not refused", what.c_str());
            for (size_t i = res.diags.size(); i-- > 0;)
                if ((refused_n && res.diags[i] == "6:maximumRecords")
                    || (refused_b && res.diags[i] == "6:startRecord"))
                    res.diags.erase(res.diags.begin() + i);
            if (res.diags != diags)
                mc::fail("diagnostics", "%s (%s), expected %s", what.c_str(),
                         rnames[s.bad], diags.empty() ? "none" : diags[0].c_str());
            // a target that sends nothing: what was sent before
            if (partial && res.recs.size() < recs.size())
            {
                recs.resize(res.recs.size());
                next = std::to_string(b + (long long) recs.size());
            }
            if (res.next != next)
                mc::fail("next", "%s (%s), expected %s", what.c_str(), rnames[s.bad],
                         next.c_str());
            if (res.recs.size() != recs.size())
                mc::fail("records", "%s (%s), expected %d records", what.c_str(),
                         rnames[s.bad], (int) recs.size());
            for (size_t i = 0; i < recs.size(); i++)
            {
                Rec &x = res.recs[i], &y = recs[i];
                // records sent by a target unasked have any content
                if (x.pos != y.pos || (y.diag != x.diag)
                    || (y.diag.empty() && (x.data != y.data || x.schema != y.schema
                                           || x.packing != y.packing)))
                    mc::fail("record", "%s, expected record %s %s %s %s", what.c_str(),
                             y.pos.c_str(), y.schema.c_str(), y.packing.c_str(),
                             (y.data + y.diag).c_str());
            }
            if (!s.bad && schema && recs.size()
                && s.present.find(":dc ") == std::string::npos)
                mc::fail("schema", "%s: requested %s", what.c_str(),
                         s.present.c_str());
            out += res.summary() + " ";
        }
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

static Z_GDU *encode(ODR o, Z_SRW_PDU *p, const std::string &path, int method)
{
    Z_GDU *g = get(o, path);
    Z_HTTP_Request *h = g->u.HTTP_Request;
    if (method)
        h->method = odr_strdup(o, "POST");
    int r = method == 0 ? yaz_sru_get_encode(h, p, o, "utf-8")
        : method == 1 ? yaz_sru_post_encode(h, p, o, "utf-8")
        : yaz_sru_soap_encode(h, p, o, "utf-8");
    if (r)
        mc::fail("harness:encode", "encode");
    return g;
}

static void extra(ODR o, Z_SRW_PDU *p, const char *name, const char *value)
{
    Z_SRW_extra_arg *a = (Z_SRW_extra_arg *) odr_malloc(o, sizeof *a);
    a->name = odr_strdup(o, name);
    a->value = odr_strdup(o, value);
    a->next = p->extra_args;
    p->extra_args = a;
}

// what is asked of the target: query, databases, target, user, address
MC_SCENARIO(sr_query, 0)
{
    zh::quiet();
    std::string out;
    {
        mp::RouterChain r;
        yf::SRUtoZ3950 f;
        Srv s;
        s.yield = true;
        r.append(f);
        r.append(s);
        zh::configure(f, "<f/>");
        s.hits = 1;
        zh::Client c(r);
        int rounds = mc::param("rounds", 1);
        for (int d = 0; d < rounds; d++)
        {
            s.init = s.search = s.present = "";
            ODR o = odr_createmem(ODR_ENCODE);
            static const char *const versions[] = { "1.1", "1.2", "2.0" };
            int method = mc::choose(3);     // GET, POST, SOAP
            int ver = mc::choose(method == 2 ? 2 : 3);
            const char *version = versions[ver];
            int q = mc::choose(method == 2 ? 3 : ver == 2 ? 6 : 4);
            static const char *const dbs[] = { "db", "", "a/b", "x%20y" };
            std::string db = dbs[mc::choose(4)];
            static const char *const targets[] = { 0, "h1:210/d1", "h1/d1+d2", "h2" };
            const char *target = method == 2 ? 0 : targets[mc::choose(4)];
            int cl = method == 2 ? 0 : mc::choose(3), user = mc::choose(3), fwd = mc::choose(2);
            Z_SRW_PDU *p = yaz_srw_get_pdu(o, Z_SRW_searchRetrieve_request, version);
            Z_SRW_searchRetrieveRequest *sr = p->u.request;
            std::string want; 
            switch (q)
            {
            case 0:
                sr->queryType = odr_strdup(o, "cql");
                sr->query = odr_strdup(o, "a and t=\"b c&d\"");
                want = "CQL a and t=\"b c&d\"";
                break;
            case 1:
                sr->queryType = odr_strdup(o, "pqf");
                sr->query = odr_strdup(o, "@attr 1=4 x");
                want = "RPN @attrset Bib-1 @attr 1=4 x";
                break;
            case 2:
                sr->queryType = odr_strdup(o, "pqf");
                sr->query = odr_strdup(o, "@and x");
                break;
            case 3:
                sr->query = 0;
                break;
            case 4:
                sr->queryType = odr_strdup(o, "ccl");
                sr->query = odr_strdup(o, "au=x");
                want = "CCL au=x";
                break;
            case 5:
                sr->queryType = odr_strdup(o, "bad");
                sr->query = odr_strdup(o, "au=x");
                break;
            }
            sr->maximumRecords = odr_intdup(o, 1);
            if (user)
                p->username = odr_strdup(o, "us er");
            if (user == 2)
                p->password = odr_strdup(o, "p&w");
            if (target)
                extra(o, p, "x-target", target);
            if (cl > 1)
                extra(o, p, "x-client-b", "2 &=");
            if (cl)
                extra(o, p, "x-client-a", "1");
            Z_GDU *g = encode(o, p, "/" + db, method);
            if (fwd)
                z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "X-Forwarded-For",
                                  "9.8.7.6");
            std::string what = g->u.HTTP_Request->path;
            mc::note("%s v%s method %d query %d user %d", what.c_str(), version, method, q, user);
            Res res = http(c, g);
            odr_destroy(o);
            mc::evaluated();
            what += " (v" + std::string(version) + " method " + std::to_string(method)
                + " query " + std::to_string(q) + ") asked " + s.init + "/ "
                + s.search + " / " + s.present + " answered " + res.summary();
            if (s.open)
                mc::fail("end", "session to target not ended: %s", what.c_str());
            if (res.kind != "searchRetrieveResponse")
                mc::fail("kind", "%s", what.c_str());
            std::string init, search;
            if (q != 3)
            {
                if (target)
                {
                    std::string h = target;
                    init += "v:" + h.substr(0, h.find('/')) + " ";
                }
                if (user)
                    init += std::string("u:us er") + (user == 2 ? "/p&w" : "") + " ";
                if (fwd)
                    init += "ip:9.8.7.6 ";
            }
            if (want.size())
            {
                std::string b = db.empty() ? "Default" : db;
                const char *t = target ? strchr(target, '/') : 0;
                if (t)
                    b = t + 1;
                else if (cl)
                    b += cl == 1 ? ",a=1" : ",a=1&b=2%20%26%3D";
                search = "searchreq:default:" + b + ":" + want;
            }
            if (s.init != init)
                mc::fail("target", "%s", what.c_str());
            if (s.search != search)
                mc::fail("search", "%s, expected %s", what.c_str(), search.c_str());
            if (want.size() ? res.diags.size() || res.recs.size() != 1
                || res.recs[0].data != Srv::body(1)
                : res.diags.empty() || res.recs.size() || res.hits.size())
                mc::fail("answer", "%s", what.c_str());
            std::string wd = q == 2 ? "10:query" : "7:query";
            if (want.empty() && res.diags[0] != wd)
                mc::fail("diagnostic", "%s", what.c_str());
            out += res.summary() + " ";
        }
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// operations other than searching
MC_SCENARIO(sr_ops, 0)
{
    zh::quiet();
    std::string out;
    {
        mp::RouterChain r;
        yf::SRUtoZ3950 f;
        int other = 0;
        zh::Fn s([&](mp::Package &p) {
            if (p.session().is_closed())
                return;
            Z_GDU *g = p.request().get();
            if (!g || g->which != Z_GDU_Z3950
                || g->u.z3950->which != Z_APDU_initRequest)
                mc::fail("request", "unexpected request");
            other++;
            mp::odr o;
            p.response() = o.create_initResponse(g->u.z3950, 0, 0);
        });
        r.append(f);
        r.append(s);
        // explain records are taken from the configuration
        zh::Xml conf("<f><database name='c'><explain xmlns='http://e'><h>A&amp;B"
                     "</h></explain></database><database name='n'/></f>");
        f.configure(conf.root(), false, 0);
        zh::Client c(r);
        for (int d = 0; d < 2; d++)
        {
            ODR o = odr_createmem(ODR_ENCODE);
            int what = mc::choose(6);
            static const char *const dbs[] = { "c", "n", "", "a/b", "x&y", "<i>" };
            std::string db = dbs[mc::choose(what < 2 ? 6 : 2)];
            int pack = what < 2 ? mc::choose(3) : 0;
            int host = what < 2 ? mc::choose(3) : 0;
            int method = what < 4 ? mc::choose(2) : 0;
            std::string path = "/" + db, q;
            mc::note("operation %d, database %s, packing %d, host %d, method %d",
                     what, db.c_str(), pack, host, method);
            std::string packing = pack ? pack == 1 ? "&recordPacking=string"
                : "&recordPacking=xml" : "";
            switch (what)
            {
            case 0:
                q = "version=1.1&operation=explain" + packing;
                break;
            case 1:
                q = packing.size() ? packing.substr(1) : "";
                break;
            case 2:
                q = "version=1.1&operation=scan&scanClause=a";
                break;
            case 3:
                q = "version=1.1&operation=unknown";
                break;
            }
            bool bad = false;
            Z_GDU *g;
            if (what == 4)      // passed on
            {
                Z_APDU *a = zh::init_req(o);
                int n = other;
                std::string s = c.send(a);
                if (s != "init:ok" || other != n + 1)
                    mc::fail("passed", "Init answered with %s", s.c_str());
                out += s + " ";
                odr_destroy(o);
                c.close();
                break;
            }
            if (what == 5)
            {
                g = get(o, path);
                Z_HTTP_Request *h = g->u.HTTP_Request;
                int k = mc::choose(4);
                h->method = odr_strdup(o, k == 3 ? "PUT" : "POST");
                if (k < 3)
                {
                    static const char *const t[] = { "text/xml", "text/xml",
                        "text/html" };
                    static const char *const b[] = { "<bad", "<x/>", "q=1" };
                    z_HTTP_header_add(o, &h->headers, "Content-Type", t[k]);
                    h->content_buf = odr_strdup(o, b[k]);
                    h->content_len = strlen(b[k]);
                }
                bad = true;
            }
            else if (method)
            {
                g = get(o, path);
                Z_HTTP_Request *h = g->u.HTTP_Request;
                h->method = odr_strdup(o, "POST");
                z_HTTP_header_add(o, &h->headers, "Content-Type",
                                  "application/x-www-form-urlencoded");
                h->content_buf = odr_strdup(o, q.c_str());
                h->content_len = q.size();
            }
            else
                g = get(o, path + (q.size() ? "?" + q : ""));
            if (host)
            {
                z_HTTP_header_remove(&g->u.HTTP_Request->headers, "Host");
                if (host == 1)
                    z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "Host",
                                      "a<b&c:1&2");
            }
            mc::evaluated();
            std::string s;
            Res res;
            c.send(g, [&](mp::Package &p) {
                Z_GDU *a = p.response().get();
                if (!a || a->which != Z_GDU_HTTP_Response)
                    mc::fail("http", "no HTTP response");
                Z_HTTP_Response *h = a->u.HTTP_Response;
                res.raw = std::string(h->content_buf ? h->content_buf : "",
                                      h->content_len);
                if (h->code == 200)
                {
                    xmlDoc *doc = xmlParseMemory(res.raw.data(), res.raw.size());
                    if (!doc)
                        mc::fail("xml", "response is not XML: %s", res.raw.c_str());
                    parse(doc->children, res);
                    xmlFreeDoc(doc);
                }
                s = std::to_string(h->code);
            });
            odr_destroy(o);
            std::string all = path + " " + q + ": " + s + " " + res.summary()
                + (c.closed ? " closed" : "");
            out += all;
            if (bad)
            {
                if (s == "200" ? res.raw.find("Fault") == std::string::npos
                    : s != "400" || !c.closed)
                    mc::fail("malformed", "%s", all.c_str());
                if (c.closed)
                    break;
                continue;
            }
            if (s != "200" || c.closed)
                mc::fail("http", "%s", all.c_str());
            if (what == 2)
            {
                if (res.kind != "scanResponse" || res.diags.size() != 1
                    || res.diags[0] != "4:scan")
                    mc::fail("scan", "%s", all.c_str());
                continue;
            }
            if (res.kind != "explainResponse" || res.recs.size() != 1
                || res.recs[0].pos != "1")
                mc::fail("explain", "%s", all.c_str());
            if (what == 3 ? res.diags.size() != 1 || res.diags[0] != "4:unknown"
                : res.diags.size() != 0)
                mc::fail("diagnostics", "%s", all.c_str());
            if (what == 0 && res.recs[0].packing != (pack == 1 ? "string" : "xml"))
                mc::fail("packing", "%s", all.c_str());
            std::string data = res.recs[0].data;
            if (data.size() && data[0] == '\'')
                data = data.substr(1, data.size() - 2);
            xmlDoc *doc = xmlParseMemory(data.data(), data.size());
            if (!doc)
                mc::fail("record", "explain record is not XML: %s", all.c_str());
            std::string h, p, b;
            std::function<void(xmlNode *)> walk = [&](xmlNode *n) {
                for (; n; n = n->next)
                {
                    std::string k = (const char *) n->name;
                    if (k == "host" || k == "h")
                        h = text(n);
                    else if (k == "port")
                        p = text(n);
                    else if (k == "database")
                        b = text(n);
                    walk(n->children);
                }
            };
            walk(doc->children);
            xmlFreeDoc(doc);
            std::string got = h + " " + p + " " + b;
            if (got != (db == "c" ? "A&B  " : std::string(
                            host == 0 ? "h.org 8080 " : host == 1 ? "a<b&c 1&2 "
                            : "localhost 80 ") + (db.empty() ? "Default" : db)))
                mc::fail("record", "%s: %s", got.c_str(), all.c_str());
        }
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// requests of one HTTP session handled at the same time
MC_SCENARIO(sr_mt, 0)
{
    zh::quiet();
    mc::sched_begin();
    std::string out;
    {
        mp::RouterChain r;
        yf::SRUtoZ3950 f;
        Srv s[2];
        int other = mc::choose(2);      // one session or two
        zh::Client *c[2] = { new zh::Client(r), new zh::Client(r) };
        unsigned long id0 = c[0]->session.id();
        zh::Fn dispatch([&](mp::Package &p) {
            s[p.session().id() == id0 ? 0 : 1].serve(p);
        });
        r.append(f);
        r.append(dispatch);
        zh::configure(f, "<f/>");
        for (auto &x : s)
            x.yield = true, x.hits = 2, x.cap = 1;
        std::vector<int> t;
        Res res[2];
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                zh::Client k = *c[other ? i : 0];
                ODR o = odr_createmem(ODR_ENCODE);
                Z_GDU *g = get(o, std::string("/db") + std::to_string(i)
                               + "?version=1.1&operation=searchRetrieve&query=a"
                               "&maximumRecords=2");
                res[i] = http(k, g);
                odr_destroy(o);
            }));
        for (int x : t)
            mc::join(x);
        mc::calm(true);
        for (int i = 0; i < 2; i++)
        {
            mc::evaluated();
            if (res[i].summary() != "searchRetrieveResponse hits 2 next  [1  xml "
                "<r>1</r> ] [2  xml <r>2</r> ]")
                mc::fail("answer", "%s", res[i].summary().c_str());
            if (s[i].open)
                mc::fail("end", "session to target not ended");
        }
        out = s[0].search + s[1].search;
        for (auto x : c)
        {
            x->close();
            delete x;
        }
        mc::calm(false);
    }
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}

// explain records of the explain filter: histories of requests of any kind
MC_SCENARIO(sr_explain, 0)
{
    zh::quiet();
    int depth = mc::param("depth", 2);
    std::string out;
    {
        mp::RouterChain r;
        yf::ZeeRexExplain f;
        std::string seen;
        zh::Fn s([&](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g)
            {
                seen += "(gone)";
                return;
            }
            mp::odr o;
            if (g->which == Z_GDU_Z3950)
            {
                seen += "(init)";
                p.response() = o.create_initResponse(g->u.z3950, 0, 0);
                return;
            }
            Z_HTTP_Request *h = g->u.HTTP_Request;
            seen += std::string("(") + h->method + " " + h->path + " "
                + std::string(h->content_buf ? h->content_buf : "", h->content_len) + ")";
            p.response() = o.create_HTTP_Response(p.session(), h, 299);
        });
        r.append(f);
        r.append(s);
        std::string before;
        {
            std::ostringstream os;      // names of databases are printed
            std::streambuf *old = std::cout.rdbuf(os.rdbuf());
            zh::configure(f, "<f xmlns='http://indexdata.com/metaproxy'/>");
            std::cout.rdbuf(old);
        }
        zh::Xml conf("<f xmlns='http://indexdata.com/metaproxy'>"
                     "<database name='c'> <!-- x --><explain xmlns='http://e'><h>A&amp;B"
                     "</h></explain></database><database name='n'/>"
                     "<database name='d/e'><explain xmlns='http://e'><h>D</h></explain>"
                     "</database></f>");
        {
            std::ostringstream os;
            std::streambuf *old = std::cout.rdbuf(os.rdbuf());
            f.configure(conf.root(), false, 0);
            std::cout.rdbuf(old);
        }
        static const char *const dbs[] = { "c", "n", "d/e", "x", "", "d", "c/d" };
        static const char *const ops[] = { "version=1.1&operation=explain", "",
            "version=1.1&operation=explain&recordPacking=string",
            "version=1.1&operation=searchRetrieve&query=a",
            "version=1.1&operation=scan&scanClause=a", "version=1.1&operation=unknown" };
        std::unique_ptr<zh::Client> c;
        for (int d = 0; d < depth; d++)
        {
            if (!c || c->closed)
                c.reset(new zh::Client(r));
            seen.clear();
            ODR o = odr_createmem(ODR_ENCODE);
            int what = mc::choose(4);   // GET, POST, no SRU at all, Z39.50
            if (what == 3)
            {
                std::string a = c->send(zh::init_req(o));
                odr_destroy(o);
                if (a != "init:ok" || seen != "(init)")
                    mc::fail("passed", "Init: %s %s", a.c_str(), seen.c_str());
                continue;
            }
            int db = mc::choose(7);
            std::string path = std::string("/") + dbs[db], q, body;
            int op = what == 2 ? mc::choose(4) : mc::choose(6);
            if (what < 2)
                q = ops[op];
            if (what == 0 && q.size())
                path += "?" + q;
            Z_GDU *g = get(o, path);
            Z_HTTP_Request *h = g->u.HTTP_Request;
            if (what == 1)
            {
                body = q;
                h->method = odr_strdup(o, "POST");
                z_HTTP_header_add(o, &h->headers, "Content-Type",
                                  "application/x-www-form-urlencoded");
            }
            if (what == 2)
            {
                h->method = odr_strdup(o, op == 3 ? "PUT" : "POST");
                static const char *const t[] = { "text/xml", "text/xml", "text/html", 0 };
                static const char *const b[] = { "<bad", "<x/>", "q=1", "" };
                body = b[op];
                if (t[op])
                    z_HTTP_header_add(o, &h->headers, "Content-Type", t[op]);
            }
            if (body.size())
            {
                h->content_buf = odr_strdup(o, body.c_str());
                h->content_len = body.size();
            }
            std::string want = std::string("(") + h->method + " " + path + " " + body + ")";
            mc::evaluated();
            Res res;
            int code = 0;
            c->send(g, [&](mp::Package &p) {
                Z_GDU *a = p.response().get();
                if (!a || a->which != Z_GDU_HTTP_Response)
                    mc::fail("http", "%s: no HTTP response", want.c_str());
                Z_HTTP_Response *h = a->u.HTTP_Response;
                code = h->code;
                res.raw = std::string(h->content_buf ? h->content_buf : "",
                                      h->content_len);
                if (code == 200)
                {
                    xmlDoc *doc = xmlParseMemory(res.raw.data(), res.raw.size());
                    if (!doc)
                        mc::fail("xml", "response is not XML: %s", res.raw.c_str());
                    parse(doc->children, res);
                    xmlFreeDoc(doc);
                }
            });
            odr_destroy(o);
            std::string all = want + ": " + std::to_string(code) + " " + res.summary()
                + (c->closed ? " closed" : "") + " passed on " + seen;
            out += std::to_string(code) + res.kind + (c->closed ? "x " : " ");
            bool mine = db < 3;
            if (mine && what == 2)
            {   // nothing that can be understood: refused or a fault
                if (seen.size() || (code == 200 ? res.raw.find("Fault") == std::string::npos
                                    : code != 400 || !c->closed))
                    mc::fail("malformed", "%s", all.c_str());
                continue;
            }
            // an unknown operation is not one for others either
            if (!mine || op == 3 || op == 4)
            {
                if (seen != want || code != 299 || c->closed)
                    mc::fail("passed", "%s", all.c_str());
                continue;
            }
            if (code != 200 || c->closed || seen.size() || res.kind != "explainResponse"
                || res.recs.size() != 1)
                mc::fail("explain", "%s", all.c_str());
            if (op == 5 ? res.diags.size() != 1 || res.diags[0] != "4:unknown"
                : res.diags.size() != 0)
                mc::fail("diagnostics", "%s", all.c_str());
            std::string data = res.recs[0].data;
            if (op == 2 && (res.recs[0].packing != "string" || data[0] != '\''))
                mc::fail("packing", "%s", all.c_str());
            static const char *const has[] = { "<h>A&amp;B</h>", "<database>n</database>",
                                               "<h>D</h>" };
            if (data.find(has[db]) == std::string::npos
                || data.find(has[(db + 1) % 3]) != std::string::npos)
                mc::fail("record", "%s", all.c_str());
        }
        if (c)
        {
            seen.clear();
            c->close();
            if (seen != "(gone)")
                mc::fail("close", "end of session told as %s", seen.c_str());
        }
    }
    mc::outcome(out);
    mc::state(out);
}
