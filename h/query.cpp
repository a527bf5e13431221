// Conversion of queries: CQL to RPN and back, RPN by stylesheet and charset.
// ONLY: filter_cql_rpn filter_query_rewrite package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_cql_rpn.hpp"
#include "filter_query_rewrite.hpp"
#include <sys/stat.h>
#include <unistd.h>

static std::string base;        // scratch directory

static void put(const std::string &name, const std::string &text)
{
    std::string f = base + "/" + name;
    struct stat st;
    if (stat(f.c_str(), &st) == 0 && (size_t) st.st_size == text.size())
        return;
    std::string t = f + "." + std::to_string(getpid());
    FILE *o = fopen(t.c_str(), "wb");
    if (!o || fwrite(text.data(), 1, text.size(), o) != text.size())
        mc::fail("harness:scratch", "cannot write %s", t.c_str());
    fclose(o);
    rename(t.c_str(), f.c_str());
}

static std::string sheet(const std::string &s)
{
    return "<xsl:stylesheet xmlns:xsl='http://www.w3.org/1999/XSL/Transform' "
        "version='1.0'>" + s + "</xsl:stylesheet>";
}

static void scratch()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    base = std::string(b, n > 0 ? n : 0);
    base = base.substr(0, base.rfind('/')) + "/scratch-query";
    mkdir(base.c_str(), 0777);
    put("cql.txt",
        "set.cql = info:srw/cql-context-set/1/cql-v1.1\n"
        "set.dc = info:srw/cql-context-set/1/dc-v1.1\n"
        "set = info:srw/cql-context-set/1/dc-v1.1\n"
        "index.cql.serverChoice = 1=1016\n"
        "index.dc.title = 1=4\n"
        "index.dc.creator = 1=1003\n"
        "relation.eq = 2=3\n"
        "relation.scr = 2=3\n"
        "relation.< = 2=1\n"
        "position.any = 3=3\n"
        "structure.* = 4=1\n"
        "truncation.right = 5=1\n"
        "truncation.none = 5=100\n");
    std::string id = "<xsl:template match='@*|node()'><xsl:copy>"
        "<xsl:apply-templates select='@*|node()'/></xsl:copy></xsl:template>";
    put("same.xsl", sheet(id));
    put("alias.xsl", sheet(id + "<xsl:template match=\"attr[@type='1' and @value='1']\">"
                           "<attr type='1' value='1003'/></xsl:template>"));
    put("term.xsl", sheet(id + "<xsl:template match=\"term[.='b']\">"
                          "<term type='general'>c d</term></xsl:template>"));
    put("stop.xsl", sheet(id + "<xsl:template match=\"term[.='b']\">"
                          "<xsl:message terminate='yes'>no</xsl:message>"
                          "</xsl:template>"));
    put("none.xsl", sheet("<xsl:template match='/'/>"));
    put("other.xsl", sheet("<xsl:template match='/'><foo><bar/></foo></xsl:template>"));
    put("norpn.xsl", sheet("<xsl:template match='/'><query/></xsl:template>"));
    put("part.xsl", sheet("<xsl:template match='/'><query><rpn set='Bib-1'>"
                          "<operator type='and'><apt><term>x</term></apt></operator>"
                          "</rpn></query></xsl:template>"));
    put("diag.xsl", sheet(id + "<xsl:template match='apt'><diagnostic code='114' "
                          "addinfo='why'/></xsl:template>"));
    put("bad.xsl", "<xsl:stylesheet");
    put("empty.txt", "");
}

static std::string strip(const Z_GDU *g, std::string *q)
{       // the search request with another query, encoded
    ODR o = odr_createmem(ODR_ENCODE), d = odr_createmem(ODR_DECODE);
    Z_GDU *h = (Z_GDU *) g;
    std::string r;
    z_GDU(o, &h, 0, 0);
    int len;
    char *buf = odr_getbuf(o, &len, 0);
    odr_setbuf(d, buf, len, 0);
    Z_GDU *c = 0;
    if (z_GDU(d, &c, 0, 0) && c->which == Z_GDU_Z3950
        && c->u.z3950->which == Z_APDU_searchRequest)
    {
        ODR e = odr_createmem(ODR_ENCODE);
        if (q)
            *q = zh::query(c->u.z3950->u.searchRequest->query);
        mp::util::pqf(e, c->u.z3950, "x");
        z_GDU(e, &c, 0, 0);
        char *b = odr_getbuf(e, &len, 0);
        r = std::string(b, len);
        odr_destroy(e);
    }
    odr_destroy(o);
    odr_destroy(d);
    return r;
}

enum { OK, DIAG, LOST, CLOSE, SILENT, NREPLY };
struct Srv : public zh::Fn {
    int seen, reply;
    std::string q, rest, what;
    Srv() : seen(0), reply(OK) {
        f = [this](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g || g->which != Z_GDU_Z3950)
                return;
            seen++;
            what = zh::desc(g);
            rest = strip(g, &q);
            mp::odr o;
            Z_APDU *a = g->u.z3950;
            switch (reply)
            {
            case OK:
                if (a->which == Z_APDU_searchRequest)
                {
                    Z_APDU *z = o.create_searchResponse(a, 0, 0);
                    *z->u.searchResponse->resultCount = 17;
                    p.response() = z;
                }
                else if (a->which == Z_APDU_scanRequest)
                    p.response() = o.create_scanResponse(a, 0, 0);
                else if (a->which == Z_APDU_presentRequest)
                    p.response() = o.create_presentResponse(a, 0, 0);
                else
                    p.response() = o.create_initResponse(a, 0, 0);
                break;
            case DIAG:
                p.response() = o.create_searchResponse(a, 3, "dd");
                break;
            case CLOSE:
                p.response() = o.create_close(a, 2, "cc");
                // fall through
            case LOST:
                p.session().close();
                break;
            }
        };
    }
};

static void relayed(const Srv &s, zh::Client &c, const std::string &got)
{
    std::string want = s.reply == OK ? "search:17:ok" : s.reply == DIAG
        ? "search:0:fail:ret0:next0:d:3:dd#r" : s.reply == CLOSE ? "close:2:cc#r" : "-";
    if (got.compare(0, want.size(), want) || (s.reply == OK && got.find("#r") == std::string::npos))
        mc::fail("reply", "%s instead of %s", got.c_str(), want.c_str());
    if (c.closed != (s.reply == LOST || s.reply == CLOSE))
        mc::fail("closed", "session %s after %s", c.closed ? "closed" : "open", got.c_str());
}

// -------------------------------------------------------------------- CQL
struct Leaf { const char *cql, *pqf; int err; const char *info; };
#define AT(u) "@attr 1=" u " @attr 5=100 @attr 3=3 @attr 4=1 @attr 2=3 "
static const Leaf leaves[] = {
    { "a", AT("1016") "a" },
    { "dc.title = fish", AT("4") "fish" },
    { "\"a b\"", AT("1016") "\"a b\"" },
    { "creator = c*", "@attr 1=1003 @attr 5=1 @attr 3=3 @attr 4=1 @attr 2=3 c" },
    { "dc.title < \"\"", "@attr 1=4 @attr 5=100 @attr 3=3 @attr 4=1 @attr 2=1 \"\"" },
    { "\"and\"", AT("1016") "and" },
    { "\xc3\xa9", AT("1016") "\xc3\xa9" },
    { "x.y = a", 0, 121, "" },
    { "dc.foo = a", 0, 114, "foo" },
    { "dc.title any a", 0, 117, "any" },
    { "title = /stem a", 0, 117, "stem" },
    { "a*b", 0, 120, "z3958" },
    { "a)", 0, 108, "" },
};
enum { NLEAF = sizeof(leaves) / sizeof(*leaves) };
static const char *const ops[] = { "and", "or", "not" };

struct Query { std::string cql, pqf; std::vector<const Leaf *> bad; bool syntax; };

static Query query(int max)
{
    Query q;
    q.syntax = false;
    int shape = mc::choose(max);
    const Leaf *l[3];
    const char *op[2];
    int n = shape == 0 ? 1 : shape == 1 ? 2 : 3;
    for (int i = 0; i < n; i++)
    {
        l[i] = &leaves[mc::choose(NLEAF)];
        if (!l[i]->pqf)
            q.bad.push_back(l[i]);
        if (l[i]->err == 108)
            q.syntax = true;
        if (i)
            op[i - 1] = ops[mc::choose(3)];
    }
    auto c = [&](int i) { return std::string(l[i]->cql); };
    auto p = [&](int i) { return std::string(l[i]->pqf ? l[i]->pqf : ""); };
    switch (shape)
    {
    case 0:
        q.cql = c(0);
        q.pqf = p(0);
        break;
    case 1:
        q.cql = c(0) + " " + op[0] + " " + c(1);
        q.pqf = std::string("@") + op[0] + " " + p(0) + " " + p(1);
        break;
    case 2:
        q.cql = c(0) + " " + op[0] + " " + c(1) + " " + op[1] + " " + c(2);
        q.pqf = std::string("@") + op[1] + " @" + op[0] + " " + p(0) + " " + p(1) + " " + p(2);
        break;
    default:
        q.cql = c(0) + " " + op[0] + " (" + c(1) + " " + op[1] + " " + c(2) + ")";
        q.pqf = std::string("@") + op[0] + " " + p(0) + " @" + op[1] + " " + p(1) + " " + p(2);
    }
    q.pqf = "RPN @attrset Bib-1 " + q.pqf;
    return q;
}

static void set_cql(ODR o, Z_APDU *a, const std::string &cql)
{
    Z_External *e = (Z_External *) odr_malloc(o, sizeof(*e));
    memset(e, 0, sizeof(*e));
    e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql);
    e->which = Z_External_CQL;
    e->u.cql = odr_strdup(o, cql.c_str());
    Z_Query *q = (Z_Query *) odr_malloc(o, sizeof(*q));
    q->which = Z_Query_type_104;
    q->u.type_104 = e;
    a->u.searchRequest->query = q;
}

static std::string conf(bool reverse)
{
    return "<f><conversion file='" + base + "/cql.txt'"
        + (reverse ? " reverse='true'" : "") + "/></f>";
}

MC_SCENARIO(qu_cql, 0)
{
    zh::quiet();
    scratch();
    std::string out;
    {
        mp::RouterChain r;
        yf::CQLtoRPN fwd, rev, fwd2;
        Srv s;
        // forward; back and forth
        bool chain = mc::choose(2);
        zh::configure(fwd, conf(false));
        zh::configure(rev, conf(true));
        zh::configure(fwd2, conf(false));
        r.append(fwd);
        Srv mid;
        std::string back;
        zh::Fn spy([&](mp::Package &p) {
            back = zh::desc(p.request().get());
            p.move();
        });
        if (chain)
        {
            r.append(rev);
            r.append(spy);
            r.append(fwd2);
        }
        r.append(s);
        s.reply = mc::choose(NREPLY, mc::FAULT);
        zh::Client c(r);
        Query q = query(mc::param("shapes", 3));
        ODR o = odr_createmem(ODR_ENCODE);
        Z_APDU *a = zh::search_req(o, "x", "rs", zh::v("d", "e"), s.reply & 1, "r");
        *a->u.searchRequest->smallSetUpperBound = 3;
        *a->u.searchRequest->largeSetLowerBound = 7;
        a->u.searchRequest->preferredRecordSyntax
            = odr_oiddup(o, yaz_oid_recsyn_sutrs);
        Z_GDU g;
        g.which = Z_GDU_Z3950;
        g.u.z3950 = a;
        std::string rest = strip(&g, 0);
        set_cql(o, a, q.cql);
        std::string got = c.send(a);
        odr_destroy(o);
        mc::evaluated();
        if (q.bad.size())
        {
            if (s.seen)
                mc::fail("passed", "bad query %s passed on as %s", q.cql.c_str(),
                         s.q.c_str());
            bool ok = false;
            for (auto b : q.bad)
            {
                std::string want = "search:0:fail:ret0:next0:d:"
                    + std::to_string(q.syntax ? 108 : b->err) + ":"
                    + (q.syntax ? "" : b->info) + "#r";
                if (got == want)
                    ok = true;
            }
            if (!ok || c.closed)
                mc::fail("diagnostic", "%s%s for bad query %s", got.c_str(),
                         c.closed ? " closed" : "", q.cql.c_str());
        }
        else
        {
            if (s.seen != 1 || s.q != q.pqf)
                mc::fail("query", "%s passed on %d times as %s instead of %s (%s)",
                         q.cql.c_str(), s.seen, s.q.c_str(), q.pqf.c_str(), back.c_str());
            if (s.rest != rest)
                mc::fail("request", "%s: more than the query changed", q.cql.c_str());
            if (chain && back.find("CQL ") == std::string::npos)
                mc::fail("reverse", "%s: not CQL: %s", q.cql.c_str(), back.c_str());
            relayed(s, c, got);
        }
        c.close();
        out = got + s.q;
    }
    mc::outcome(out);
    mc::state(out);
}

// what is not to be converted, reverse errors, several requests of one session
MC_SCENARIO(qu_pass, 0)
{
    zh::quiet();
    scratch();
    int depth = mc::param("depth", 2);
    std::string out;
    {
        mp::RouterChain r;
        yf::CQLtoRPN f;
        Srv s;
        bool reverse = mc::choose(2);
        zh::configure(f, conf(reverse));
        r.append(f);
        r.append(s);
        zh::Client c(r);
        for (int d = 0; d < depth; d++)
        {
            ODR o = odr_createmem(ODR_ENCODE);
            Z_APDU *a = 0;
            int op = mc::choose(9);
            bool same = true;
            switch (op)
            {
            case 0:
                a = zh::init_req(o, "r");
                break;
            case 1:
                a = zh::present_req(o, "rs", 1, 2, 0, 0, "r");
                break;
            case 2:
                a = zh::scan_req(o, "d", "t", 5, 1, "r");
                break;
            case 3:     // a query the other way
                a = zh::search_req(o, "@attr 1=4 x", "rs", zh::v("d"), true, "r");
                if (reverse)
                    set_cql(o, a, "dc.foo = a");
                break;
            case 4:     // CCL
                a = zh::search_req(o, "x", "rs", zh::v("d"), true, "r");
                a->u.searchRequest->query->which = Z_Query_type_2;
                a->u.searchRequest->query->u.type_2 = zh::oct(o, "a and");
                break;
            case 5:     // to be converted
                a = zh::search_req(o, "@attr 1=4 x", "rs", zh::v("d"), true, "r");
                if (!reverse)
                    set_cql(o, a, "title = x");
                same = false;
                break;
            case 6:     // bad
                a = zh::search_req(o, "@attr 1=77 x", "rs", zh::v("d"), true, "r");
                if (!reverse)
                    set_cql(o, a, "foo = x");
                same = false;
                break;
            case 7:     // neither CQL nor a string
                a = zh::search_req(o, "x", "rs", zh::v("d"), true, "r");
                set_cql(o, a, "x");
                a->u.searchRequest->query->u.type_104
                    = z_ext_record_sutrs(o, "foo = x", 7);
                break;
            case 8:
                a = zget_APDU(o, Z_APDU_deleteResultSetRequest);
                break;
            }
            Z_GDU g;
            g.which = Z_GDU_Z3950;
            g.u.z3950 = a;
            std::string sent = zh::desc(&g), rest = strip(&g, 0);
            s.seen = 0;
            std::string got = c.send(a);
            odr_destroy(o);
            mc::evaluated();
            out += got + "/" + s.what + " ";
            if (op == 6)
            {
                if (s.seen || got.compare(0, 19, "search:0:fail:ret0:") || c.closed
                    || got.find("114:") == std::string::npos
                    || got.find("#r") == std::string::npos)
                    mc::fail("diagnostic", "%s for %s, passed on %d times", got.c_str(),
                             sent.c_str(), s.seen);
                continue;
            }
            if (s.seen != 1)
                mc::fail("passed", "%s passed on %d times", sent.c_str(), s.seen);
            if (same && s.what != sent)
                mc::fail("same", "%s passed on as %s", sent.c_str(), s.what.c_str());
            if (op == 5)
            {
                if (s.q != (reverse ? "CQL dc.title = x" :
                            "RPN @attrset Bib-1 " AT("4") "x") || s.rest != rest)
                    mc::fail("query", "%s passed on as %s", sent.c_str(), s.what.c_str());
            }
            if (s.what.find("searchreq") == 0)
                relayed(s, c, got);
            else if (got.find("#r") == std::string::npos && op < 3)
                mc::fail("reply", "%s to %s", got.c_str(), sent.c_str());
        }
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// ----------------------------------------------------- stylesheet and charset
struct Sheet { const char *name; int kind; };
enum { SAME, ALIAS, TERM, STOP, BAD, DIAGN };
static const Sheet sheets[] = {
    { 0, SAME }, { "same", SAME }, { "alias", ALIAS }, { "term", TERM }, { "stop", STOP },
    { "none", BAD }, { "other", BAD }, { "norpn", BAD }, { "part", BAD }, { "diag", DIAGN },
};
static const char *const terms[] = { "a", "b", "\xc3\xa9", "\xd0\x96", "" };
static const char *const attrs[][2] = { { "", "" }, { "@attr 1=1 ", "@attr 1=1003 " },
    { "@attr 1=4 ", "@attr 1=4 " }, { "@attr 2=1 @attr 1=1 ", "@attr 1=1003 @attr 2=1 " },
    { "@attr GILS 1=1 ", "@attr 1=1003 " }, { "@attr 1=title ", "@attr 1=title " } };

static std::string quoted(const std::string &t)
{
    return t.empty() || t.find(' ') != std::string::npos ? "\"" + t + "\"" : t;
}

MC_SCENARIO(qu_rewrite, 0)
{
    zh::quiet();
    scratch();
    int depth = mc::param("ops", 1);
    std::string out;
    {
        mp::RouterChain r;
        yf::QueryRewrite f;
        Srv s;
        const Sheet &sh = sheets[mc::choose(10)];
        int cs = mc::choose(4);
        std::string x = "<f xmlns='http://indexdata.com/metaproxy'>";
        if (sh.name)
            x += "<xslt stylesheet='" + base + "/" + sh.name + ".xsl'/>";
        if (cs)
            x += cs == 1 ? "<charset to='iso-8859-1'/>"
                : cs == 2 ? "<charset from='utf-8' to='iso-8859-1'/>"
                : "<charset from='iso-8859-1'/>";
        zh::configure(f, x + "</f>");
        r.append(f);
        r.append(s);
        zh::Client c(r);
        std::string in, want;
        bool stop = false, unconv = false;
        int n = mc::choose(depth + 1);
        if (n == 0)
            s.reply = mc::choose(NREPLY, mc::FAULT);
        for (int i = 0; i < n; i++)
        {
            std::string op = std::string("@") + ops[mc::choose(3)] + " ";
            in += op;
            want += op;
        }
        for (int i = 0; i <= n; i++)
        {
            // libyaz does not convert empty terms
            std::string t = terms[mc::choose(cs == 1 || cs == 2 ? 4 : 5)];
            int at = mc::choose(6);
            in += attrs[at][0] + quoted(t) + " ";
            if (sh.kind == STOP && t == "b")
                stop = true;
            if (sh.kind == TERM && t == "b")
                t = "c d";
            if (cs == 1 || cs == 2)
            {
                if (t == "\xc3\xa9")
                    t = "\xe9";
                else if (t == "\xd0\x96")
                    unconv = true;
            }
            // attributes come in the opposite order of the notation
            want += (sh.kind == ALIAS ? attrs[at][1] : at == 3 ? "@attr 1=1 @attr 2=1 "
                     : attrs[at][0]) + quoted(t) + (i < n ? " " : "");
        }
        want = "RPN @attrset Bib-1 " + want;
        ODR o = odr_createmem(ODR_ENCODE);
        Z_APDU *a = zh::search_req(o, in, "rs", zh::v("d", "e"), s.reply & 1, "r");
        Z_GDU g;
        g.which = Z_GDU_Z3950;
        g.u.z3950 = a;
        std::string rest = strip(&g, 0);
        std::string got = c.send(a);
        odr_destroy(o);
        mc::evaluated();
        bool bad = stop || unconv || sh.kind == BAD || sh.kind == DIAGN;
        if (bad)
        {
            std::string w = sh.kind == DIAGN ? "search:0:fail:ret0:next0:d:114:why#r"
                : "search:0:fail:ret0:next0:d:";
            if (s.seen || got.compare(0, w.size(), w) || c.closed
                || got.find("#r") == std::string::npos)
                mc::fail("diagnostic", "%s for %s with %s, passed on %d times: %s", got.c_str(),
                         in.c_str(), x.c_str(), s.seen, s.q.c_str());
        }
        else
        {
            if (s.seen != 1 || s.rest != rest)
                mc::fail("passed", "%s passed on %d times with %s: %s", in.c_str(), s.seen, x.c_str(), got.c_str());
            if (s.q != want)
                mc::fail("query", "%s passed on as %s instead of %s with %s", in.c_str(),
                         s.q.c_str(), want.c_str(), x.c_str());
            relayed(s, c, got);
        }
        c.close();
        out = got + s.q;
    }
    mc::outcome(out);
    mc::state(out);
}

// configurations
MC_SCENARIO(qu_conf, 0)
{
    zh::quiet();
    scratch();
    std::string b = base;
    static const struct { bool cql; const char *xml; bool ok; } confs[] = {
        { true, "<conversion file='%/cql.txt'/>", true },
        { true, "<conversion file='cql.txt'/>", true },     // on the path
        { true, "<conversion file='%/cql.txt' reverse='false'/>", true },
        { true, "<conversion file='%/none.txt'/>", false },
        { true, "<conversion/>", false },
        { true, "", false },
        { true, "<conversion file='%/cql.txt' more='1'/>", false },
        { true, "<other/>", false },
        { false, "", true },
        { false, "<xslt stylesheet='%/same.xsl'/>", true },
        { false, "<xslt stylesheet='same.xsl'/>", true },
        { false, "<xslt stylesheet='%/bad.xsl'/>", false },
        { false, "<xslt stylesheet='%/none.xslt'/>", false },
        { false, "<xslt/>", false },
        { false, "<xslt stylesheet='%/same.xsl'/><xslt stylesheet='%/same.xsl'/>", false },
        { false, "<xslt sheet='%/same.xsl'/>", false },
        { false, "<charset to='a' of='b'/>", false },
        { false, "<other/>", false },
    };
    auto &c = confs[mc::choose(sizeof(confs) / sizeof(*confs))];
    std::string x = c.xml, err;
    size_t p;
    while ((p = x.find('%')) != std::string::npos)
        x.replace(p, 1, base);
    x = "<f xmlns='http://indexdata.com/metaproxy'>" + x + "</f>";
    bool ok = true;
    {
        yf::CQLtoRPN f1;
        yf::QueryRewrite f2;
        zh::Xml d(x);
        try
        {
            if (c.cql)
                f1.configure(d.root(), false, base.c_str());
            else
                f2.configure(d.root(), false, base.c_str());
        }
        catch (std::exception &e)
        {
            ok = false;
            err = e.what();
        }
    }
    mc::evaluated();
    if (ok != c.ok)
        mc::fail("config", "%s: %s%s", x.c_str(), ok ? "accepted" : "refused: ", err.c_str());
    mc::outcome(std::to_string(ok) + err);
    mc::state(std::to_string(ok));
}
