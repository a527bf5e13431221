// Conversion of records, and of surrogate diagnostics.
// ONLY: filter_record_transform filter_sd_remove package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_record_transform.hpp"
#include <yaz/record_conv.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" { extern struct metaproxy_1_filter_struct metaproxy_1_filter_sd_remove; }

static bool points;
extern "C" int yaz_record_conv_record(yaz_record_conv_t p, const char *b, size_t n,
                                      WRBUF out)
{
    typedef int (*F)(yaz_record_conv_t, const char *, size_t, WRBUF);
    static F f = (F) dlsym(RTLD_NEXT, "yaz_record_conv_record");
    if (points)
        mc::point("convert");
    int r = f(p, b, n, out);
    if (points)
        mc::point("converted");
    return r;
}

static std::string base;        // scratch directory

static void put(const std::string &name, const std::string &text)
{
    std::string f = base + "/" + name;
    struct stat st;
    if (stat(f.c_str(), &st) == 0 && (size_t) st.st_size == text.size())
        return;
    std::string t = f + "." + std::to_string(getpid());
    FILE *o = fopen(t.c_str(), "wb");
    if (!o || fwrite(text.data(), 1, text.size(), o) != text.size())
        mc::fail("harness:scratch", "cannot write %s", t.c_str());
    fclose(o);
    rename(t.c_str(), f.c_str());
}

static void scratch()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    base = std::string(b, n > 0 ? n : 0);
    base = base.substr(0, base.rfind('/')) + "/scratch-record";
    mkdir(base.c_str(), 0777);
    put("wrap.xsl", "<xsl:stylesheet xmlns:xsl='http://www.w3.org/1999/XSL/Transform' "
        "version='1.0'><xsl:output method='text'/><xsl:template match='/'>"
        "&lt;<xsl:value-of select='.'/>&gt;</xsl:template></xsl:stylesheet>");
}

struct El {
    const char *syntax, *name, *id;     // offered
    bool backend;
    const char *bsyntax, *bname;        // asked of the target
    bool conv;
};
static const std::vector<El> confs[] = {
    { { "xml", "dc", "info:dc", true, "xml", "raw", true }, { "usmarc", 0, 0, false },
      { "sutrs", "F", 0, true, "grs-1", 0, false } },
    { { "xml", 0, 0, true, "xml", 0, true } },
    { { "xml", "dc", 0, true, "usmarc", "F", true }, { "xml", "F", 0, false },
      { "xml", "dc", "info:dc", true, "sutrs", "B", false }, { "usmarc", "dc", 0, false } },
};
enum { NCONF = sizeof(confs) / sizeof(*confs) };

static std::string xml(const std::vector<El> &c)
{
    std::string s = "<f><retrievalinfo xmlns='http://indexdata.com/yaz' version='1.0'>";
    auto at = [](const char *n, const char *v) {
        return v ? std::string(" ") + n + "='" + v + "'" : std::string();
    };
    for (auto &e : c)
    {
        s += "<retrieval" + at("syntax", e.syntax) + at("name", e.name)
            + at("identifier", e.id) + ">";
        if (e.backend)
            s += "<backend" + at("syntax", e.bsyntax) + at("name", e.bname) + ">"
                + (e.conv ? "<xslt stylesheet='" + base + "/wrap.xsl'/>" : "")
                + "</backend>";
        s += "</retrieval>";
    }
    return s + "</retrievalinfo></f>";
}

static const struct { const char *name; const Odr_oid *oid; } syntaxes[] = {
    { 0, 0 }, { "xml", yaz_oid_recsyn_xml }, { "usmarc", yaz_oid_recsyn_usmarc },
    { "sutrs", yaz_oid_recsyn_sutrs }, { "grs-1", yaz_oid_recsyn_grs_1 },
};
static const char *syn_name(const Odr_oid *o)
{
    for (auto &s : syntaxes)
        if (o && s.oid && !oid_oidcmp(o, s.oid))
            return s.name;
    return o ? "?" : 0;
}
static std::string nn(const char *s) { return s ? s : "-"; }

enum { GOOD, MALF, SUTRS, SURR, EXTRA, NREC };
enum { RECS, DIAG, NONE, CLOSE, LOST, SILENT, OTHER, NREPLY };

static Z_ElementSetNames *esn(ODR o, const char *s)
{
    if (!s)
        return 0;
    Z_ElementSetNames *e = (Z_ElementSetNames *) odr_malloc(o, sizeof(*e));
    e->which = Z_ElementSetNames_generic;
    e->u.generic = odr_strdup(o, s);
    return e;
}
static const char *esn_str(const Z_ElementSetNames *e)
{
    return e ? e->which == Z_ElementSetNames_generic ? e->u.generic : "?" : 0;
}

struct Srv : public zh::Fn {
    int reply, nrec, rec[3], seen;
    bool flags;
    std::string syntax, name, small, large, medium, what;
    Srv() : reply(RECS), nrec(0), seen(0), flags(true) {
        f = [this](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g || g->which != Z_GDU_Z3950)
                return;
            if (points)
                mc::point("server");
            seen++;
            what = zh::desc(g);
            Z_APDU *a = g->u.z3950;
            mp::odr o;
            Z_APDU *z = 0;
            if (a->which == Z_APDU_presentRequest)
            {
                Z_PresentRequest *r = a->u.presentRequest;
                syntax = nn(syn_name(r->preferredRecordSyntax));
                name = !r->recordComposition ? "-" : r->recordComposition->which
                    == Z_RecordComp_simple ? nn(esn_str(r->recordComposition->u.simple)) : "c";
                z = o.create_presentResponse(a, 0, 0);
            }
            else if (a->which == Z_APDU_searchRequest)
            {
                Z_SearchRequest *r = a->u.searchRequest;
                syntax = nn(syn_name(r->preferredRecordSyntax));
                name = nn(esn_str(r->smallSetElementSetNames));
                if (name != nn(esn_str(r->mediumSetElementSetNames)))
                    name += "/" + nn(esn_str(r->mediumSetElementSetNames));
                small = std::to_string(*r->smallSetUpperBound);
                large = std::to_string(*r->largeSetLowerBound);
                medium = std::to_string(*r->mediumSetPresentNumber);
                z = o.create_searchResponse(a, 0, 0);
                *z->u.searchResponse->resultCount = 17;
            }
            else
            {
                p.response() = o.create_initResponse(a, 0, 0);
                return;
            }
            bool s = a->which == Z_APDU_searchRequest;
            switch (reply)
            {
            case RECS:
            {
                std::vector<Z_NamePlusRecord *> v;
                for (int i = 0; i < nrec; i++)
                {
                    std::string n = "t" + std::to_string(i);
                    std::string db = "d" + std::to_string(i);
                    switch (rec[i])
                    {
                    case GOOD:
                        v.push_back(zh::rec(o, db, "<r>" + n + "</r>"));
                        break;
                    case MALF:
                        v.push_back(zh::rec(o, db, "<r>" + n));
                        break;
                    case SUTRS:
                        v.push_back(zh::rec(o, db, n, yaz_oid_recsyn_sutrs));
                        break;
                    case SURR:
                        v.push_back(zget_surrogateDiagRec(o, db.c_str(), 14, n.c_str()));
                        break;
                    default:
                    {
                        Z_NamePlusRecord *d = zget_surrogateDiagRec(o, 0, 14, 0);
                        Z_External *e = z_ext_record_sutrs(o, n.data(), (int) n.size());
                        d->u.surrogateDiagnostic->which = Z_DiagRec_externallyDefined;
                        d->u.surrogateDiagnostic->u.externallyDefined = e;
                        v.push_back(d);
                    }
                    }
                }
                Z_Records *r = nrec ? zh::recs(o, v) : 0;
                if (s)
                {
                    z->u.searchResponse->records = r;
                    *z->u.searchResponse->numberOfRecordsReturned = nrec;
                    *z->u.searchResponse->nextResultSetPosition = 1 + nrec;
                }
                else
                {
                    z->u.presentResponse->records = r;
                    *z->u.presentResponse->numberOfRecordsReturned = nrec;
                    *z->u.presentResponse->nextResultSetPosition = 1 + nrec;
                }
                break;
            }
            case DIAG:
                z = s ? o.create_searchResponse(a, 3, "dd") : o.create_presentResponse(a, 3, "dd");
                break;
            case CLOSE:
                z = o.create_close(a, 2, "cc");
                p.session().close();
                break;
            case LOST:
                p.session().close();
                return;
            case SILENT:
                return;
            case OTHER:
                z = o.create_initResponse(a, 0, 0);
                break;
            case NONE:
                break;
            }
            p.response() = z;
        };
    }
};

// what a record becomes
static std::string record(int kind, int i, bool conv)
{
    std::string n = "t" + std::to_string(i), d = "[d" + std::to_string(i) + "]";
    switch (kind)
    {
    case GOOD:
        return d + (conv ? "<" + n + ">" : "<r>" + n + "</r>");
    case MALF:
        return conv ? d + "surr:d:14:*" : d + "<r>" + n;
    case SUTRS:
        return conv ? d + "surr:d:14:*" : d + "s=" + n;
    case SURR:
        return d + "surr:d:14:" + n;
    }
    return "surr:ext";
}

// want with * for any text up to the next , or )
static bool like(const std::string &s, const std::string &w)
{
    size_t i = 0, j = 0;
    for (; j < w.size(); j++)
        if (w[j] == '*')
        {
            size_t k = i;
            while (i < s.size() && s[i] != ')' && s[i] != ',')
                i++;
            if (i == k)
                return false;   // says something
        }
        else if (i >= s.size() || s[i++] != w[j])
            return false;
    return i == s.size();
}

MC_SCENARIO(rt_one, 0)
{
    zh::quiet();
    scratch();
    std::string out;
    {
        mp::RouterChain r;
        yf::RecordTransform f;
        Srv s;
        const std::vector<El> &conf = confs[mc::choose(NCONF)];
        zh::configure(f, xml(conf));
        r.append(f);
        r.append(s);
        zh::Client c(r);
        bool search = mc::choose(2);
        auto &syn = syntaxes[mc::choose(5)];
        static const char *const names[] = { 0, "dc", "info:dc", "F", "other" };
        const char *name = names[mc::choose(5)];
        ODR o = odr_createmem(ODR_ENCODE);
        Z_APDU *a;
        bool disable = false, complex = false;
        if (search)
        {
            a = zh::search_req(o, "x", "rs", zh::v("d"), true, "r");
            Z_SearchRequest *q = a->u.searchRequest;
            q->preferredRecordSyntax = syn.oid ? odr_oiddup(o, syn.oid) : 0;
            *q->smallSetUpperBound = 3;
            *q->largeSetLowerBound = 9;
            *q->mediumSetPresentNumber = 2;
            switch (mc::choose(4))
            {
            case 0:
                q->smallSetElementSetNames = q->mediumSetElementSetNames = esn(o, name);
                break;
            case 1:     // different ones
                q->smallSetElementSetNames = esn(o, name);
                q->mediumSetElementSetNames = esn(o, "B");
                disable = true;
                break;
            case 2:     // only one
                q->smallSetElementSetNames = esn(o, name);
                disable = name;
                break;
            case 3:     // no records at all
                q->smallSetElementSetNames = q->mediumSetElementSetNames = esn(o, name);
                *q->smallSetUpperBound = 0;
                *q->largeSetLowerBound = 1;
                if (!name)
                    disable = true;
                break;
            }
        }
        else
        {
            a = zh::present_req(o, "rs", 2, 3, syn.oid, name, "r");
            complex = name && mc::choose(2);
            if (complex)
            {
                Z_RecordComposition *k = a->u.presentRequest->recordComposition;
                k->which = Z_RecordComp_complex;
                Z_CompSpec *cs = k->u.complex = (Z_CompSpec *) odr_malloc(o, sizeof(*cs));
                memset(cs, 0, sizeof(*cs));
                cs->selectAlternativeSyntax = odr_booldup(o, 0);
                cs->generic = (Z_Specification *) odr_malloc(o, sizeof(*cs->generic));
                memset(cs->generic, 0, sizeof(*cs->generic));
                cs->generic->which = Z_Schema_oid;
                cs->generic->elementSpec = (Z_ElementSpec *)
                    odr_malloc(o, sizeof(Z_ElementSpec));
                cs->generic->elementSpec->which = Z_ElementSpec_elementSetName;
                cs->generic->elementSpec->u.elementSetName = odr_strdup(o, name);
            }
        }
        // the one chosen
        const El *m = 0;
        bool anysyn = false, anyname = false, exact = false;
        for (auto &e : conf)
        {
            bool sy = !syn.name || !strcmp(syn.name, e.syntax);
            bool same = name && ((e.name && !strcmp(e.name, name))
                                 || (e.id && !strcmp(e.id, name)));
            bool na = same || !name || (!e.name && !e.id);
            anysyn |= sy;
            anyname |= na;
            if (sy && na && (!m || same))
            {
                m = &e;
                exact = same;
            }
        }
        bool pass = disable || m;
        if (pass)
        {
            s.reply = mc::choose(NREPLY, mc::FAULT);
            if (s.reply == RECS)
            {
                s.nrec = mc::choose(mc::param("recs", 2) + 1);
                for (int i = 0; i < s.nrec; i++)
                    s.rec[i] = mc::choose(NREC);
            }
        }
        Z_GDU g;
        g.which = Z_GDU_Z3950;
        g.u.z3950 = a;
        std::string sent = zh::desc(&g);
        std::string got = c.send(a);
        if (got.size() > 7 && got.substr(got.size() - 7) == "!closed")
            got.erase(got.size() - 7);
        odr_destroy(o);
        mc::evaluated();
        std::string e = sent + " for " + nn(syn.name) + "/" + nn(name) + " with " + xml(conf)
            + ": " + got + " after " + s.what + " for " + s.syntax + "/" + s.name;
        if (!pass)
        {
            if (s.seen)
                mc::fail("passed", "%s", e.c_str());
            std::string d1 = std::string("d:24:") + (name ? name : "") + "#r";
            std::string d2 = "d:239:" + zh::oid(syn.oid) + "#r";
            std::string h = search ? "search:0:fail:ret0:next0:" : "present:st5:ret0:next0:";
            bool ok = (!anysyn && got == h + d2) || (!anyname && got == h + d1)
                || (anysyn && anyname && got == h + d1);
            if (!ok || c.closed)
                mc::fail("diagnostic", "%s (%s or %s)", e.c_str(), d1.c_str(), d2.c_str());
        }
        else
        {
            if (s.seen != 1 || s.what != sent)
                mc::fail("request", "%s", e.c_str());
            if (disable)
            {
                if (s.small != "0" || s.large != "1")
                    mc::fail("piggyback", "%s", e.c_str());
                if (s.reply == RECS && s.nrec)
                    return;     // none were asked for
            }
            else
            {
                std::string ws = m->backend ? nn(m->bsyntax) : m->syntax;
                std::string wn = m->bname ? m->bname : nn(name);
                if (s.syntax != ws || s.name != wn)
                    mc::fail("backend", "%s instead of %s/%s", e.c_str(), ws.c_str(),
                             wn.c_str());
            }
            bool conv = !disable && m->conv;
            std::string h = search ? "search:17:ok" : "present:st0";
            std::string n = std::to_string(s.nrec), n1 = std::to_string(s.nrec + 1);
            std::string w;
            switch (s.reply)
            {
            case RECS:
                w = h + ":ret" + n + ":next" + n1 + ":";
                for (int i = 0; i < s.nrec; i++)
                {
                    std::string t = record(s.rec[i], i, conv);
                    if (!disable && m->backend && !m->conv)
                    {   // same content as another syntax
                        if (s.rec[i] == SUTRS)
                            t = record(s.rec[i], i, true);
                        else if ((s.rec[i] == GOOD || s.rec[i] == MALF)
                                 && !strcmp(m->syntax, "sutrs"))
                            t.insert(t.find(']') + 1, "s=");
                    }
                    w += (i ? "," : "recs(") + t;
                }
                w += s.nrec ? ")#r" : "none#r";
                break;
            case DIAG:
                w = (search ? "search:0:fail" : "present:st5")
                    + std::string(":ret0:next0:d:3:dd#r");
                break;
            case NONE:
                w = h + ":ret0:next0:none#r";
                break;
            case CLOSE:
                w = "close:2:cc#r";
                break;
            case OTHER:
                w = "init:ok#r";
                break;
            default:
                w = "-";
            }
            if (!like(got, w))
                mc::fail("answer", "%s instead of %s", e.c_str(), w.c_str());
            if (c.closed != (s.reply == CLOSE || s.reply == LOST))
                mc::fail("closed", "%s", e.c_str());
        }
        c.close();
        out = got + s.syntax + s.name;
    }
    mc::outcome(out);
    mc::state(out);
}

// requests that are no business of the filter, in one session
MC_SCENARIO(rt_pass, 0)
{
    zh::quiet();
    scratch();
    std::string out;
    {
        mp::RouterChain r;
        yf::RecordTransform f;
        std::unique_ptr<yf::Base> gp(metaproxy_1_filter_sd_remove.creator());
        yf::Base &g = *gp;
        Srv s;
        bool sd = mc::choose(2);
        if (sd)
            zh::configure(g, "<f/>");
        else
            zh::configure(f, xml(confs[mc::choose(NCONF)]));
        if (sd)
            r.append(g);
        else
            r.append(f);
        r.append(s);
        zh::Client c(r);
        for (int d = 0; d < 2; d++)
        {
            ODR o = odr_createmem(ODR_ENCODE);
            int op = mc::choose(3);
            Z_APDU *a = op == 0 ? zh::init_req(o, "r") : op == 1
                ? zh::scan_req(o, "d", "t", 5, 1, "r") : zget_APDU(o, Z_APDU_deleteResultSetRequest);
            Z_GDU gd;
            gd.which = Z_GDU_Z3950;
            gd.u.z3950 = a;
            std::string sent = zh::desc(&gd);
            std::string got = c.send(a);
        if (got.size() > 7 && got.substr(got.size() - 7) == "!closed")
            got.erase(got.size() - 7);
            odr_destroy(o);
            mc::evaluated();
            if (s.what != sent || s.seen != d + 1 || got.compare(0, 5, "init:"))
                mc::fail("same", "%s passed on as %s: %s", sent.c_str(), s.what.c_str(),
                         got.c_str());
            out += got;
        }
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// surrogate diagnostics become records
MC_SCENARIO(rt_surrogate, 0)
{
    zh::quiet();
    std::string out;
    {
        mp::RouterChain r;
        std::unique_ptr<yf::Base> fp(metaproxy_1_filter_sd_remove.creator());
        yf::Base &f = *fp;
        Srv s;
        zh::configure(f, "<f/>");
        r.append(f);
        r.append(s);
        zh::Client c(r);
        bool search = mc::choose(2);
        s.reply = mc::choose(NREPLY, mc::FAULT);
        if (s.reply == RECS)
        {
            s.nrec = mc::choose(4);
            for (int i = 0; i < s.nrec; i++)
                s.rec[i] = mc::choose(NREC);
        }
        ODR o = odr_createmem(ODR_ENCODE);
        Z_APDU *a = search ? zh::search_req(o, "x", "rs", zh::v("d"), true, "r")
            : zh::present_req(o, "rs", 2, 3, 0, 0, "r");
        Z_GDU g;
        g.which = Z_GDU_Z3950;
        g.u.z3950 = a;
        std::string sent = zh::desc(&g);
        std::string got = c.send(a);
        if (got.size() > 7 && got.substr(got.size() - 7) == "!closed")
            got.erase(got.size() - 7);
        odr_destroy(o);
        mc::evaluated();
        if (s.seen != 1 || s.what != sent)
            mc::fail("request", "%s passed on as %s", sent.c_str(), s.what.c_str());
        std::string h = search ? "search:17:ok" : "present:st0", w;
        switch (s.reply)
        {
        case RECS:
            w = h + ":ret" + std::to_string(s.nrec) + ":next" + std::to_string(s.nrec + 1) + ":";
            for (int i = 0; i < s.nrec; i++)
            {
                std::string t = record(s.rec[i], i, false), d = "[d" + std::to_string(i) + "]";
                if (s.rec[i] == SURR)
                    t = d + "s= ERROR 14: System error in presenting records -- t"
                        + std::to_string(i) + "\n";
                else if (s.rec[i] == EXTRA)
                    t = "s= ERROR diag not in default format\n";
                w += (i ? "," : "recs(") + t;
            }
            w += s.nrec ? ")#r" : "none#r";
            break;
        case DIAG:
            w = (search ? "search:0:fail" : "present:st5")
                + std::string(":ret0:next0:d:3:dd#r");
            break;
        case NONE:
            w = h + ":ret0:next0:none#r";
            break;
        case CLOSE:
            w = "close:2:cc#r";
            break;
        case OTHER:
            w = "init:ok#r";
            break;
        default:
            w = "-";
        }
        if (got != w)
            mc::fail("answer", "%s instead of %s", got.c_str(), w.c_str());
        if (c.closed != (s.reply == CLOSE || s.reply == LOST))
            mc::fail("closed", "%s", got.c_str());
        c.close();
        out = got;
    }
    mc::outcome(out);
    mc::state(out);
}

// two sessions at the same time
MC_SCENARIO(rt_mt, 0)
{
    zh::quiet();
    scratch();
    mc::sched_begin();
    std::string got[2];
    Srv s[2];
    {
        mp::RouterChain r;
        yf::RecordTransform f;
        zh::Fn srv([&](mp::Package &p) {
            s[p.origin().get_address().find("1.1.1.1") != std::string::npos].f(p);
        });
        zh::configure(f, xml(confs[0]));
        r.append(f);
        r.append(srv);
        int t[2];
        for (int i = 0; i < 2; i++)
        {
            s[i].nrec = 1;
            s[i].rec[0] = mc::choose(3);
        }
        points = true;
        for (int i = 0; i < 2; i++)
            t[i] = mc::spawn([&, i]() {
                zh::Client c(r, i ? "1.1.1.1 @:9000" : "2.2.2.2 @:9000");
                ODR o = odr_createmem(ODR_ENCODE);
                got[i] = c.send(zh::present_req(o, "rs", 1, 1, yaz_oid_recsyn_xml, "dc",
                                                i ? "r1" : "r0"));
                odr_destroy(o);
                c.close();
            });
        mc::join(t[0]);
        mc::join(t[1]);
        points = false;
    }
    for (int i = 0; i < 2; i++)
    {
        mc::evaluated();
        std::string w = "present:st0:ret1:next2:recs(" + record(s[i].rec[0], 0, true)
            + (i ? ")#r1" : ")#r0");
        if (!like(got[i], w))
            mc::fail("answer", "%s instead of %s", got[i].c_str(), w.c_str());
    }
    mc::sched_end();
    mc::outcome(got[0] + got[1]);
}
