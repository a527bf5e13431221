// Sessions that have ended leave nothing behind in the filters.
#include "zh.hpp"
#include <metaproxy/filter.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <yaz/retrieval.h>

#define FILTERS(X) X(auth_simple) X(backend_test) X(bounce) X(cql_rpn) X(http_file) \
    X(http_rewrite) X(limit) X(load_balance) X(log) X(multi) X(present_chunk) \
    X(query_rewrite) X(record_transform) X(sd_remove) X(sort) X(sru_z3950) X(virt_db)
extern "C" {
#define X(n) extern struct metaproxy_1_filter_struct metaproxy_1_filter_##n;
FILTERS(X)
#undef X
}
enum {
#define X(n) F_##n,
FILTERS(X)
#undef X
    F_COUNT
};
static metaproxy_1_filter_struct *const all[] = {
#define X(n) &metaproxy_1_filter_##n,
FILTERS(X)
#undef X
};

extern "C" size_t __sanitizer_get_current_allocated_bytes();

// The conversion library keeps a buffer of its own for every request: what a call of it
// leaves behind is not counted.
static long library;
extern "C" int yaz_retrieval_request(yaz_retrieval_t p, const char *schema,
                                     const Odr_oid *syntax, const char **match_schema,
                                     Odr_oid **match_syntax, yaz_record_conv_t *rc,
                                     const char **backend_schema, Odr_oid **backend_syntax)
{
    static auto real = (int (*)(yaz_retrieval_t, const char *, const Odr_oid *,
                                const char **, Odr_oid **, yaz_record_conv_t *,
                                const char **, Odr_oid **))
        dlsym(RTLD_NEXT, "yaz_retrieval_request");
    long before = __sanitizer_get_current_allocated_bytes();
    int r = real(p, schema, syntax, match_schema, match_syntax, rc, backend_schema,
                 backend_syntax);
    library += (long) __sanitizer_get_current_allocated_bytes() - before;
    return r;
}

static std::string base;        // scratch directory

static void put(const std::string &name, const std::string &text)
{
    std::string f = base + "/" + name;
    struct stat st;
    if (stat(f.c_str(), &st) == 0 && (size_t) st.st_size == text.size())
        return;
    std::string t = f + "." + std::to_string(getpid());
    FILE *o = fopen(t.c_str(), "wb");
    if (!o || fwrite(text.data(), 1, text.size(), o) != text.size())
        mc::fail("harness:scratch", "cannot write %s", t.c_str());
    fclose(o);
    rename(t.c_str(), f.c_str());
}

static void scratch()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    base = std::string(b, n > 0 ? n : 0);
    base = base.substr(0, base.rfind('/')) + "/scratch-retain";
    mkdir(base.c_str(), 0777);
    put("a.txt", "hello");
    put("users", "u:p:a,b\n");
    put("targets", "t:a,b\n");
    put("cql.txt", "set = 1.2.840.10003.3.1\nindex.cql.serverChoice = 1=1016\n"
        "index.cql.allRecords = 1=_ALLRECORDS\nrelation.eq = 2=3\nrelation.scr = 2=3\n"
        "relationModifier.relevant = 2=102\nstructure.* = 4=1\nposition.any = 3=3 6=1\n"
        "truncation.none = 5=100\n");
    std::string h = "<xsl:stylesheet xmlns:xsl='http://www.w3.org/1999/XSL/Transform'"
        " version='1.0'>";
    put("id.xsl", h + "<xsl:template match='@*|node()'><xsl:copy><xsl:apply-templates "
        "select='@*|node()'/></xsl:copy></xsl:template></xsl:stylesheet>");
    put("opac.xsl", h + "<xsl:template match='/'><opacRecord><bibliographicRecord>"
        "<xsl:copy-of select='.'/></bibliographicRecord><holdings/></opacRecord>"
        "</xsl:template></xsl:stylesheet>");
    put("bad.xsl", h + "<xsl:template match='/'><foo/></xsl:template></xsl:stylesheet>");
}

struct Conf { int f; const char *x; };      // @ is the scratch directory
static const Conf confs[] = {
    { F_auth_simple, "<f><userRegister>@/users</userRegister>"
      "<targetRegister>@/targets</targetRegister></f>" },
    { F_auth_simple, "<f><userRegister>@/users</userRegister><discardUnauthorisedTargets/></f>" },
    { F_backend_test, "<f/>" },
    { F_bounce, "<f/>" },
    { F_cql_rpn, "<f><conversion file='@/cql.txt'/></f>" },
    { F_cql_rpn, "<f><conversion file='@/cql.txt' reverse='true'/></f>" },
    { F_http_file, "<f><mimetypes>@/a.txt</mimetypes><area><documentroot>@</documentroot>"
      "<prefix>/h</prefix></area></f>" },
    { F_http_rewrite, "<f><request><rule name='r'><rewrite from='(?&lt;p&gt;/)(?&lt;q&gt;.*)' "
      "to='/h/${q}'/></rule><content type='headers'><within header='host' rule='r'/>"
      "<within reqline='1' rule='r'/></content></request><response><rule name='s'>"
      "<rewrite from='&lt;' to='b'/></rule><content type='headers'><within "
      "header='location' rule='s'/></content><content type='html' mime='text/.*'>"
      "<within attr='href' rule='s'/></content></response></f>" },
    { F_limit, "<f><limit bandwidth='5000000' retrieve='1'/></f>" },
    { F_load_balance, "<f/>" },
    { F_log, "<f><message>m</message><category access='true' request-apdu='true' "
      "response-apdu='true' request-session='true' response-session='true' "
      "init-options='true' user-access='true' line='true'/><filename>/dev/null</filename>"
      "</f>" },
    { F_multi, "<f/>" },
    { F_multi, "<f><hideunavailable/><mergetype>serveorder</mergetype></f>" },
    { F_present_chunk, "<f><chunk>1</chunk></f>" },
    { F_query_rewrite, "<f><xslt stylesheet='@/id.xsl'/><charset from='utf-8' "
      "to='iso-8859-1'/></f>" },
    { F_query_rewrite, "<f><xslt stylesheet='@/bad.xsl'/></f>" },
    { F_record_transform, "<f><retrievalinfo xmlns='http://indexdata.com/yaz' "
      "version='1.0'><retrieval syntax='xml'><backend syntax='xml'><xslt "
      "stylesheet='@/id.xsl'/></backend></retrieval><retrieval syntax='usmarc' name='F'>"
      "<backend syntax='opac' name='F'><marc inputcharset='marc-8' inputformat='marc' "
      "outputcharset='utf-8' outputformat='marcxml'/></backend></retrieval>"
      "</retrievalinfo></f>" },
    { F_record_transform, "<f><retrievalinfo xmlns='http://indexdata.com/yaz' "
      "version='1.0'><retrieval syntax='xml'><backend syntax='xml'><marc inputcharset="
      "'utf-8' inputformat='xml' outputcharset='utf-8' outputformat='marcxml'/><xslt "
      "stylesheet='@/opac.xsl'/></backend></retrieval><retrieval syntax='opac'><backend "
      "syntax='xml'><marc inputcharset='utf-8' inputformat='xml' outputcharset='utf-8' "
      "outputformat='marcxml'/><xslt stylesheet='@/opac.xsl'/></backend></retrieval>"
      "<retrieval syntax='usmarc'><backend syntax='xml'><marc inputcharset='utf-8' "
      "inputformat='xml' outputcharset='marc-8' outputformat='marc'/></backend></retrieval>"
      "</retrievalinfo></f>" },
    { F_sd_remove, "<f/>" },
    { F_sort, "<f><sort xpath='/r/k' prefetch='2' ascending='true'/></f>" },
    { F_sru_z3950, "<f><database name='db'/></f>" },
    { F_virt_db, "<f><virtual><database>db</database><target>t1</target></virtual>"
      "<virtual><database>d2</database><target>t1</target><target>t2</target>"
      "</virtual></f>" },
};
enum { NCONF = sizeof(confs) / sizeof(*confs) };

// target: keeps nothing itself
enum { B_OK, B_DIAG, B_CLOSE, B_LOST, B_BAD, B_N };
struct Target : public yf::Base {
    std::function<int()> behaviour;
    bool marc = false;
    mutable std::map<unsigned long, int> open;  // sessions held
    void configure(const xmlNode *, bool, const char *) {}
    void process(mp::Package &p) const
    {
        if (p.session().is_closed())
        {
            open.erase(p.session().id());
            return;
        }
        Z_GDU *g = p.request().get();
        if (!g)
            return;
        mp::odr o;
        if (g->which == Z_GDU_HTTP_Request)
        {
            Z_GDU *r = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 200);
            r->u.HTTP_Response->content_buf = odr_strdup(o, "<a href='<x'>1</a>");
            r->u.HTTP_Response->content_len = 18;
            z_HTTP_header_add(o, &r->u.HTTP_Response->headers, "Location", "<l");
            z_HTTP_header_set(o, &r->u.HTTP_Response->headers, "Content-Type",
                              "text/html");
            p.response() = r;
            return;
        }
        if (g->which != Z_GDU_Z3950)
            return;
        Z_APDU *a = g->u.z3950, *r = 0;
        if (a->which == Z_APDU_initRequest)
            open[p.session().id()];
        else if (!open.count(p.session().id()))
        {
            p.response() = o.create_close(a, Z_Close_protocolError, "no init");
            p.session().close();
            return;
        }
        int b = behaviour();
        if (b == B_LOST || b == B_CLOSE)
        {
            if (b == B_CLOSE)
                p.response() = o.create_close(a, Z_Close_shutdown, "down");
            p.session().close();
            open.erase(p.session().id());
            return;
        }
        std::vector<Z_NamePlusRecord *> v;
        const Odr_oid *syn = 0;
        Odr_int n = 0;
        switch (a->which)
        {
        case Z_APDU_initRequest:
            r = o.create_initResponse(a, b == B_DIAG ? 2 : 0, b == B_DIAG ? "x" : 0);
            if (b == B_DIAG)
                *r->u.initResponse->result = 0;
            else
                r->u.initResponse->options = a->u.initRequest->options;
            break;
        case Z_APDU_searchRequest:
            r = o.create_searchResponse(a, b == B_DIAG ? 2 : 0, b == B_DIAG ? "x" : 0);
            if (b != B_DIAG)
                *r->u.searchResponse->resultCount = 3;
            n = *a->u.searchRequest->smallSetUpperBound >= 3 ? 3
                : *a->u.searchRequest->largeSetLowerBound > 3
                ? *a->u.searchRequest->mediumSetPresentNumber : 0;
            syn = a->u.searchRequest->preferredRecordSyntax;
            break;
        case Z_APDU_presentRequest:
            r = o.create_presentResponse(a, b == B_DIAG ? 13 : 0,
                                         b == B_DIAG ? "x" : 0);
            n = *a->u.presentRequest->numberOfRecordsRequested;
            syn = a->u.presentRequest->preferredRecordSyntax;
            break;
        case Z_APDU_scanRequest:
            r = o.create_scanResponse(a, b == B_DIAG ? 2 : 0, b == B_DIAG ? "x" : 0);
            break;
        case Z_APDU_close:
            p.response() = o.create_close(a, Z_Close_finished, 0);
            p.session().close();
            open.erase(p.session().id());
            return;
        default:
            p.response() = o.create_close(a, Z_Close_protocolError, 0);
            p.session().close();
            open.erase(p.session().id());
            return;
        }
        if (n > 3)
            n = 3;
        for (int i = 0; b != B_DIAG && i < n; i++)
        {
            std::string d = b == B_BAD ? "<r>" : marc ? "<record xmlns='http://www.loc.gov/MARC21/slim'>"
                "<leader>00366nam  22001698a 4500</leader><controlfield tag='001'>x"
                "</controlfield></record>"
                : "<r><k>" + std::to_string(7 - i) + "</k></r>";
            v.push_back(i == 1 && b == B_BAD ? zget_surrogateDiagRec(o, "d", 14, "s")
                        : zh::rec(o, "d", d, syn ? syn : yaz_oid_recsyn_xml));
        }
        if (v.size())
        {
            if (a->which == Z_APDU_searchRequest)
            {
                r->u.searchResponse->records = zh::recs(o, v);
                *r->u.searchResponse->numberOfRecordsReturned = v.size();
                *r->u.searchResponse->nextResultSetPosition = v.size() + 1;
            }
            else
            {
                r->u.presentResponse->records = zh::recs(o, v);
                *r->u.presentResponse->numberOfRecordsReturned = v.size();
            }
        }
        p.response() = r;
    }
};

enum { R_INIT, R_SEARCH, R_SEARCH_RECS, R_SEARCH_BAD, R_PRESENT, R_PRESENT_OPAC, R_SCAN, R_DELETE,
       R_CLOSE, R_HTTP, R_POST, R_END };

static Z_GDU *request(ODR o, int op, int f)
{
    Z_GDU *g = (Z_GDU *) odr_malloc(o, sizeof *g);
    g->which = Z_GDU_Z3950;
    const char *db = f == F_virt_db ? "d2" : "db";
    Z_APDU *a = 0;
    switch (op)
    {
    case R_INIT:
        a = zh::init_req(o, "i", "", "u", "p");
        if (f == F_multi || f == F_load_balance)
        {
            mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, "h0", 1);
            mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, "h1", 2);
        }
        break;
    case R_SEARCH:
    case R_SEARCH_RECS:
    case R_SEARCH_BAD:
        a = zh::search_req(o, op == R_SEARCH_BAD ? "@or @attr 1=99 @attr 5=7 x y" : "x", "s",
                           zh::v(op == R_SEARCH_BAD ? "nosuch" : db));
        if (op != R_SEARCH)
        {
            *a->u.searchRequest->smallSetUpperBound = 3;
            *a->u.searchRequest->largeSetLowerBound = 10;
            a->u.searchRequest->preferredRecordSyntax =
                odr_oiddup(o, op == R_SEARCH_BAD ? yaz_oid_recsyn_usmarc
                           : yaz_oid_recsyn_xml);
        }
        break;
    case R_PRESENT:
    case R_PRESENT_OPAC:
        a = zh::present_req(o, "s", 1, 2, op == R_PRESENT ? yaz_oid_recsyn_xml
                            : yaz_oid_recsyn_opac);
        break;
    case R_SCAN:
        a = zh::scan_req(o, db, "t", 2, 1);
        break;
    case R_DELETE:
        a = zget_APDU(o, Z_APDU_deleteResultSetRequest);
        break;
    case R_CLOSE:
        a = zget_APDU(o, Z_APDU_close);
        break;
    case R_HTTP:
        return zh::http_req(o, "/h/a.txt?version=1.1&operation=searchRetrieve&query=x"
                            "&maximumRecords=2&x-target=t");
    case R_POST:
        return zh::http_req(o, "/db", "POST", "<bad");
    }
    g->u.z3950 = a;
    return g;
}

static int fds()
{
    int n = 0;
    for (int i = 0; i < 200; i++)
        n += fcntl(i, F_GETFD) >= 0;
    return n;
}

MC_SCENARIO(re_sessions, 0)
{
    zh::quiet();
    scratch();
    const Conf &cf = confs[mc::choose(NCONF)];
    int depth = mc::param("depth", 3), reps = mc::param("reps", 5);
    std::vector<int> ops;       // found in the first round
    std::string x = cf.x;
    x.insert(2, " xmlns='http://indexdata.com/metaproxy'");
    for (size_t i; (i = x.find('@')) != std::string::npos; )
        x.replace(i, 1, base);
    mc::clock_reset();
    mc::sched_begin();
    mc::calm(true);
    std::string out;
    {
        std::unique_ptr<yf::Base> f(all[cf.f]->creator());
        Target t;
        t.marc = x.find("opac.xsl") != std::string::npos;
        zh::Routes r;
        r.r[""].push_back(f.get());
        r.r[""].push_back(&t);
        std::string err;
        if (!zh::configure_ok(*f, x, &err))
            mc::fail("harness:configuration", "%s: %s", x.c_str(), err.c_str());
        std::vector<int> beh;
        size_t bi = 0;
        t.behaviour = [&]() {
            if (bi == beh.size())
                beh.push_back(mc::choose(B_N, mc::FAULT));
            return beh[bi++];
        };
        std::vector<long> mem(reps), fd(reps);
        for (int k = 0; k < reps; k++)
        {
            bi = 0;
            {
                zh::Client c(r);
                ODR o = odr_createmem(ODR_ENCODE);
                for (int i = 0; i < depth; i++)
                {
                    if (k == 0)
                        ops.push_back(mc::choose(R_END + 1));
                    int op = ops[i];
                    if (op == R_END)
                        break;
                    std::string a = c.send(request(o, op, cf.f));
                    if (k == 0)
                        out += " " + a;
                    if (c.closed)
                        break;
                }
                odr_destroy(o);
                mc::advance_ms(2000);
                c.close();
            }
            if (!t.open.empty())
                mc::fail("target-session", "%s keeps %zu sessions at the target "
                         "after the client's has ended:%s", all[cf.f]->type,
                         t.open.size(), out.c_str());
            mem[k] = (long) __sanitizer_get_current_allocated_bytes() - library;
            fd[k] = fds();
        }
        // the first rounds may fill caches
        bool grows = true, fgrows = true;
        for (int k = 2; k < reps; k++)
        {
            grows = grows && mem[k] > mem[k - 1];
            fgrows = fgrows && fd[k] > fd[k - 1];
        }
        mc::note("%s: %s", all[cf.f]->type, out.c_str());
        if (grows)
            mc::fail(std::string("memory:") + all[cf.f]->type, "%s keeps %ld bytes "
                     "of every session with%s", all[cf.f]->type,
                     mem[reps - 1] - mem[reps - 2], out.c_str());
        if (fgrows)
            mc::fail(std::string("files:") + all[cf.f]->type, "%s keeps a file open "
                     "of every session with%s", all[cf.f]->type, out.c_str());
    }
    mc::sched_end();
    mc::evaluated();
    mc::outcome(std::string(all[cf.f]->type) + out);
    mc::state(std::string(x) + out);
}
