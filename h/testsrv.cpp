// The built-in test server, and the filter that bounces what is left.
// ONLY: filter_backend_test filter_bounce package session origin filter util xmlutil router_chain gduutil
#include "msgs.hpp"
#include "filter_backend_test.hpp"
#include "filter_bounce.hpp"
#include <yaz/marcdisp.h>
#include <limits.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>

static const long HITS = 42;
static const char *const syns[] = { "", "1.2.840.10003.5.10", "1.2.840.10003.5.109.10",
                                    "1.2.840.10003.5.101" };   // MARC21 XML SUTRS
// element sets; the last is not a simple name
static const char *const esns[] = { "", "B", "F", "FF", "FF2", "FF-3", "FF0", "X", "" };
enum { NESN = sizeof(esns) / sizeof(*esns), NOESN = 0, BADESN = NESN - 1 };

static Odr_oid *syn(ODR o, int i)
{
    return i ? odr_getoidbystr(o, syns[i]) : 0;
}
static Z_ElementSetNames *esn(ODR o, int i)
{
    if (i == NOESN)
        return 0;
    Z_ElementSetNames *e = (Z_ElementSetNames *) odr_malloc(o, sizeof *e);
    if (i == BADESN)
    {
        e->which = Z_ElementSetNames_databaseSpecific;
        e->u.databaseSpecific = (Z_DatabaseSpecific *) odr_malloc(o, sizeof *e->u.databaseSpecific);
        typedef std::remove_reference<decltype(**e->u.databaseSpecific->elements)>::type El;
        El *x = (El *) odr_malloc(o, sizeof *x);
        x->dbName = odr_strdup(o, "Default");
        x->esn = odr_strdup(o, "F");
        e->u.databaseSpecific->num = 1;
        e->u.databaseSpecific->elements = (El **) odr_malloc(o, sizeof x);
        e->u.databaseSpecific->elements[0] = x;
    }
    else
    {
        e->which = Z_ElementSetNames_generic;
        e->u.generic = odr_strdup(o, esns[i]);
    }
    return e;
}
static std::string size_of(int e)
{
    const char *n = esns[e];
    long kb = n[2] ? atol(n + 2) : 1;
    return std::to_string(kb > 0 ? kb * 1024 : 10);
}
// what a request for records leads to: diagnostic or records
static std::string expect(long start, long n, int s, int e)
{
    if (start < 1 || n < 0 || start > HITS + 1 || n > HITS + 1 - start)
        return "d:13:";
    if (s == 3)
        return "d:239:";
    if (e == BADESN)
        return "d:25:";
    std::string name = e == NOESN ? "F" : esns[e];
    bool xml = s == 2, ff = name.compare(0, 2, "FF") == 0;
    if (xml ? !ff : name != "B" && name != "F")
        return "d:25:" + name;
    std::string r = "recs(";
    for (long i = start; i < start + n; i++)
        r += (i > start ? "," : "")
            + (xml ? "xml" + size_of(e) : "marc" + std::to_string(i));
    return r + ")";
}
static std::string one(const Z_NamePlusRecord *n)
{
    if (n->which != Z_NamePlusRecord_databaseRecord
        || n->u.databaseRecord->which != Z_External_octet)
        return "?";
    const Z_External *x = n->u.databaseRecord;
    std::string d = zh::str(x->u.octet_aligned);
    std::string t = zh::oid(x->direct_reference);
    if (t == syns[2])
    {
        zh::Xml v(d);
        const xmlNode *r = v.root();
        for (const xmlNode *p = r->children; p; p = p->next)
            if (p->type != XML_TEXT_NODE)
                return "?xml";
        return strcmp((const char *) r->name, "a") ? "?xml"
            : "xml" + std::to_string(d.size());
    }
    if (t != syns[1])
        return "?" + t;
    yaz_marc_t m = yaz_marc_create();
    WRBUF w = wrbuf_alloc();
    yaz_marc_xml(m, YAZ_MARC_LINE);
    int l = yaz_marc_decode_wrbuf(m, d.data(), (int) d.size(), w);
    std::string s = wrbuf_cstr(w);
    wrbuf_destroy(w);
    yaz_marc_destroy(m);
    if (l != (int) d.size() || l != 366)
        return "?marc";
    size_t p = s.find("test__");
    if (p == std::string::npos || s.find("\n001 ") == std::string::npos)
        return "?marc:" + s;
    return "marc" + std::to_string(atol(s.c_str() + p + 6));
}
static std::string recs(const Z_Records *r)
{
    if (!r || r->which != Z_Records_DBOSD)
        return zh::records(r);
    std::string s = "recs(";
    for (int i = 0; i < r->u.databaseOrSurDiagnostics->num_records; i++)
        s += (i ? "," : "") + one(r->u.databaseOrSurDiagnostics->records[i]);
    return s + ")";
}
static std::string brief(const Z_GDU *g)
{
    if (!g || g->which != Z_GDU_Z3950)
        return zh::desc(g);
    const Z_APDU *a = g->u.z3950;
    std::string ref = zh::get_ref(a);
    ref = ref.empty() ? "" : "#" + ref;
    if (a->which == Z_APDU_searchResponse)
    {
        Z_SearchResponse *r = a->u.searchResponse;
        std::string x = recs(r->records);
        return "search:" + std::to_string(*r->resultCount) + ":"
            + (*r->searchStatus ? "ok" : "fail") + ":"
            + std::to_string(*r->numberOfRecordsReturned) + ":"
            + (x.compare(0, 5, "recs(") ? "" : std::to_string(*r->nextResultSetPosition))
            + ":" + x + ref;
    }
    if (a->which == Z_APDU_presentResponse)
    {
        Z_PresentResponse *r = a->u.presentResponse;
        std::string x = recs(r->records);
        return "present:" + std::to_string(*r->presentStatus) + ":"
            + std::to_string(*r->numberOfRecordsReturned) + ":"
            + (x.compare(0, 5, "recs(") ? "" : std::to_string(*r->nextResultSetPosition))
            + ":" + x + ref;
    }
    if (a->which == Z_APDU_initResponse)
    {
        Z_InitResponse *r = a->u.initResponse;
        std::string x = std::string("init:") + (*r->result ? "ok" : "fail") + ":";
        for (int i = 0; i < 16; i++)
            x += ODR_MASK_GET(r->options, i) ? '1' : '0';
        x += ":";
        for (int i = 0; i < 4; i++)
            x += ODR_MASK_GET(r->protocolVersion, i) ? '1' : '0';
        return x + ":" + std::to_string(*r->preferredMessageSize) + ":"
            + std::to_string(*r->maximumRecordSize) + ref;
    }
    if (a->which == Z_APDU_close)
        return "close:" + std::to_string(*a->u.close->closeReason) + ref;
    return zh::desc(g);
}
static std::string found(long n, const std::string &r, const std::string &ref)
{
    bool ok = r[0] != 'd';
    return std::string("search:42:") + (ok ? "ok:" : "fail:")
        + (n && ok ? std::to_string(n) + ":" + std::to_string(n + 1 > HITS ? 0 : n + 1)
           : n == 0 && ok && r == "recs()" ? "0:1" : "0:") + ":" + r + ref;
}
static std::string shown(long st, long n, const std::string &r, const std::string &ref)
{
    bool ok = r[0] != 'd';
    return std::string("present:") + (ok ? "0:" : "5:")
        + (ok ? std::to_string(n) + ":" + std::to_string(st + n > HITS ? 0 : st + n)
           : "0:") + ":" + r + ref;
}

// run f in a child process: requests that known defects let end the program
static std::string apart(const std::function<std::string()> &f)
{
    int p[2];
    if (pipe(p))
        mc::fail("harness:pipe", "no pipe");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        std::string s = f();
        if (write(p[1], s.data(), s.size()) < 0)
            _exit(1);
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char b[4096];
    int l, st;
    while ((l = read(p[0], b, sizeof b)) > 0)
        r.append(b, l);
    close(p[0]);
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? r : "crash";
}

struct Rig {
    yf::BackendTest b;
    zh::Fn next;
    zh::Routes r;
    std::atomic<int> passed;
    std::atomic<bool> named;      // asked for in any session
    Rig() : passed(0), named(false) {
        zh::quiet();
        zh::configure(b, "<filter/>");
        next.f = [this](mp::Package &p) { passed += p.request().get() != 0; };
        r.r[""].push_back(&b);
        r.r[""].push_back(&next);
    }
};

static std::string init(Rig &r, zh::Client &c, ODR o, int opts, int vers, long sz,
                        bool check = true)
{
    Z_APDU *a = zget_APDU(o, Z_APDU_initRequest);
    Z_InitRequest *q = a->u.initRequest;
    ODR_MASK_ZERO(q->options);
    ODR_MASK_ZERO(q->protocolVersion);
    static const int bits[] = { Z_Options_search, Z_Options_present,
                                Z_Options_namedResultSets, Z_Options_scan, Z_Options_sort };
    std::string want = "init:ok:", got;
    std::string on(16, '0'), ver;
    for (int i = 0; i < 5; i++)
        if (opts >> i & 1)
        {
            ODR_MASK_SET(q->options, bits[i]);
            if (i < 3)
                on[bits[i]] = '1';
        }
    for (int i = 0; i < 4; i++)
        if (vers >> i & 1)
            ODR_MASK_SET(q->protocolVersion, i);
    for (int i = 0; i < 4; i++)
        ver += i < 3 && vers >> i & 1 && (i == 0 || ver[i - 1] == '1') ? '1' : '0';
    *q->preferredMessageSize = sz;
    *q->maximumRecordSize = sz + 1;
    zh::set_ref(o, a, "i");
    c.send(a, [&](mp::Package &p) { got = brief(p.response().get()); });
    want += on + ":" + ver + ":" + std::to_string(sz) + ":" + std::to_string(sz + 1) + "#i";
    if (check)
        mc::evaluated();
    if (got != want || c.closed || r.passed)
        mc::fail("init", "Init with options %d, versions %d answered with %s; expected %s",
                 opts, vers, got.c_str(), want.c_str());
    return got;
}

// Init of all kinds, and requests before it
MC_SCENARIO(ts_init, 0)
{
    Rig r;
    zh::Client c(r.r);
    ODR o = odr_createmem(ODR_ENCODE);
    if (mc::flip())
    {
        int rq = mc::choose(NREQ);
        std::string w, got;
        Z_GDU *g = request(o, rq, w);
        if (!g || (g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initRequest))
        {
            odr_destroy(o);
            mc::vacuous();
            return;
        }
        if (g->which == Z_GDU_Z3950)
            zh::set_ref(o, g->u.z3950, "r");
        std::string b = bytes(g), seen;
        bool http = g->which != Z_GDU_Z3950;
        bool known = http || zh::get_ref(g->u.z3950) == "r";
        r.next.f = [&](mp::Package &p) { r.passed++; seen = bytes(p.request().get()); };
        c.send(g, [&](mp::Package &p) { got = brief(p.response().get()); });
        mc::evaluated();
        if (http ? r.passed != 1 || seen != b || c.closed || got != "-"
            : r.passed || !c.closed || got != (known ? "close:6#r" : "close:6"))
            mc::fail("no-init", "%s before Init answered with %s%s", w.c_str(), got.c_str(),
                     c.closed ? "" : ", session open");
        mc::outcome(got);
    }
    else
    {
        static const long sz[] = { 0, 1, 1 << 20, 5000000000L };
        int op = mc::choose(32), v = mc::choose(16), s = mc::choose(4);
        mc::outcome(init(r, c, o, op, v, sz[s]));
    }
    odr_destroy(o);
}

static const long BIG = (1L << 32) + 1;

MC_SCENARIO(ts_search, 0)
{
    static const long small[] = { 0, 2, 41, 42, 43, BIG }, large[] = { 0, 1, 42, 43, 100, BIG },
        medium[] = { -1, 0, 2, 41, 42, 43, BIG };
    long sm = small[mc::choose(6)], la = large[mc::choose(6)], me = medium[mc::choose(7)];
    int s = mc::choose(4), e1 = mc::choose(NESN), e2 = mc::choose(NESN), nm = mc::choose(3);
    Rig r;
    zh::Client c(r.r);
    ODR o = odr_createmem(ODR_ENCODE);
    init(r, c, o, nm == 2 ? 7 : 3, 7, 1000, false);
    Z_APDU *a = zh::search_req(o, "a", nm ? "x" : "default", zh::v("Default"), true, "s");
    Z_SearchRequest *q = a->u.searchRequest;
    *q->smallSetUpperBound = sm;
    *q->largeSetLowerBound = la;
    *q->mediumSetPresentNumber = me;
    q->smallSetElementSetNames = esn(o, e1);
    q->mediumSetElementSetNames = esn(o, e2);
    q->preferredRecordSyntax = syn(o, s);
    std::string got, want;
    auto go = [&]() {
        c.send(a, [&](mp::Package &p) { got = brief(p.response().get()); });
        return got;
    };
    long n = HITS <= sm ? HITS : HITS >= la ? 0 : me > HITS ? HITS : me;
    if (nm == 1)
        want = "search:0:fail:0::d:22:#s";
    else if (n == 0)
        want = "search:42:ok:0::none#s";
    else
        want = found(n, expect(1, n, s, HITS <= sm ? e1 : e2), "#s");
    const char *sig = "search";
    bool reached = nm != 1 && n && s != 3;
    if (nm != 1 && n < 0)
        sig = "negative-number-of-records";
    else if (reached && HITS > sm && n <= sm && e1 != e2)
        sig = "medium-set-small-number";
    else if (reached && s == 2 && !strcmp(esns[HITS <= sm ? e1 : e2], "FF-3"))
        sig = "negative-record-size";
    if (strcmp(sig, "search"))
        got = apart(go);
    else
        go();
    mc::evaluated();
    if (got != want || c.closed || r.passed)
        mc::fail(sig, "bounds %ld %ld %ld, syntax %d, element sets '%s' '%s': %.200s; "
                 "expected %.200s", sm, la, me, s, esns[e1], esns[e2], got.c_str(), want.c_str());
    mc::outcome(got.substr(0, 40));
    odr_destroy(o);
}

MC_SCENARIO(ts_present, 0)
{
    static const long start[] = { LONG_MIN, -1, 0, 1, 2, 41, 42, 43, 44, INT_MAX, BIG, LONG_MAX },
        num[] = { LONG_MIN, INT_MIN, -1, 0, 1, 2, 41, 42, 43, INT_MAX, BIG - 1, BIG, LONG_MAX };
    long st = start[mc::choose(12)], n = num[mc::choose(13)];
    int s = mc::choose(4), e = mc::choose(NESN + 1);
    Rig r;
    zh::Client c(r.r);
    ODR o = odr_createmem(ODR_ENCODE);
    init(r, c, o, 7, 7, 1000, false);
    c.send(zh::search_req(o, "a", "x", zh::v("Default")));
    Z_APDU *a = zh::present_req(o, "x", 1, 1, 0, 0, "p");
    Z_PresentRequest *q = a->u.presentRequest;
    *q->resultSetStartPoint = st;
    *q->numberOfRecordsRequested = n;
    q->preferredRecordSyntax = syn(o, s);
    if (e)
    {
        q->recordComposition = (Z_RecordComposition *) odr_malloc(o, sizeof(*q->recordComposition));
        q->recordComposition->which = Z_RecordComp_simple;
        if (e < NESN)
            q->recordComposition->u.simple = esn(o, e);
        else
        {
            q->recordComposition->which = Z_RecordComp_complex;
            Z_CompSpec *x = (Z_CompSpec *) odr_malloc(o, sizeof *x);
            memset(x, 0, sizeof *x);
            x->selectAlternativeSyntax = odr_booldup(o, 0);
            q->recordComposition->u.complex = x;
        }
    }
    std::string got, want;
    auto go = [&]() {
        c.send(a, [&](mp::Package &p) { got = brief(p.response().get()); });
        return got;
    };
    const char *sig = "present";
    if (st < INT_MIN || st > INT_MAX || n < 0 || n > INT_MAX || n + st > INT_MAX)
        sig = n < 0 ? "negative-number-of-records" : "range-beyond-32-bits";
    else if (s == 2 && e < NESN && !strcmp(esns[e], "FF-3"))
        sig = "negative-record-size";
    if (strcmp(sig, "present"))
        got = apart(go);
    else
        go();
    want = shown(st, n, e == NESN ? "d:26:" : expect(st, n, s, e), "#p");
    mc::evaluated();
    if (got != want || c.closed || r.passed)
        mc::fail(sig, "present %ld+%ld, syntax %d, element set %d: %.200s; "
                 "expected %.200s", st, n, s, e, got.c_str(), want.c_str());
    mc::outcome(got.substr(0, 40));
    odr_destroy(o);
}

// one step of a session; the model tells the answer
struct Who {
    zh::Client c;
    bool init, named, gone;
    Who(mp::Router &r) : c(r), init(false), named(false), gone(false) {}
};
enum { NSTEP = 9 };
static std::string step(Who &w, int k, Rig &r)
{
    ODR o = odr_createmem(ODR_ENCODE);
    std::string got, want;
    int passes = 0;
    bool ends = false;
    auto go = [&](Z_APDU *a) {
        w.c.send(a, [&](mp::Package &p) { got = brief(p.response().get()); });
    };
    switch (k)
    {
    case 0: case 1:
        r.passed = 0;
        w.init = true;
        w.named = k;
        r.named = r.named || k;
        init(r, w.c, o, k ? 7 : 3, 7, 1000, false);
        odr_destroy(o);
        return "i";
    case 2: case 3:
        go(zh::search_req(o, "a", k == 3 ? "x" : "default", zh::v("Default"), true, "s"));
        want = !w.init ? "close:6#s" : k == 3 && !w.named ? "search:0:fail:0::d:22:#s"
            : "search:42:ok:0::none#s";
        ends = !w.init;
        break;
    case 4:
        go(zh::present_req(o, w.named ? "x" : "default", 2, 2, 0, 0, "p"));
        want = w.init ? shown(2, 2, expect(2, 2, 0, 0), "#p") : "close:6#p";
        ends = !w.init;
        break;
    case 5: case 6:
    {
        Z_APDU *a = zget_APDU(o, k == 5 ? Z_APDU_close : Z_APDU_deleteResultSetRequest);
        zh::set_ref(o, a, "c");
        go(a);
        want = w.init && k == 5 ? "close:0#c" : "close:6#c";
        ends = true;
        break;
    }
    case 7:
        r.passed = 0;
        w.c.send(zh::http_req(o, "/"), [&](mp::Package &p) {
            got = brief(p.response().get()); });
        want = "-";
        passes = 1;
        break;
    case 8:
        r.passed = 0;
        w.c.close();
        w.gone = true;
        odr_destroy(o);
        return "g";
    }
    if (got != want || w.c.closed != ends)
        mc::fail(k == 3 && w.init && !w.named && r.named && got == "search:42:ok:0::none#s"
                 && !w.c.closed ? "named-result-sets-of-another-session" : "step", "request %d answered with %s%s; expected %s%s", k, got.c_str(),
                 w.c.closed ? ", session ended" : "", want.c_str(), ends ? ", session ended" : "");
    if (passes && !r.passed)
        mc::fail("pass", "HTTP request not passed on");
    r.passed = 0;
    if (ends)
        w.gone = true;
    odr_destroy(o);
    return got.substr(0, 12);
}

// sessions do not affect each other
MC_SCENARIO(ts_two, 0)
{
    Rig r;
    int n = mc::param("sessions", 2), ops = mc::param("ops", 4);
    std::vector<std::unique_ptr<Who> > w;
    for (int i = 0; i < n; i++)
        w.push_back(std::unique_ptr<Who>(new Who(r.r)));
    std::string all;
    for (int i = 0; i < ops; i++)
    {
        int k = mc::choose(n * NSTEP + 1);
        if (k == n * NSTEP)
            break;
        Who &x = *w[k / NSTEP];
        if (x.gone)
        {
            mc::vacuous();
            break;
        }
        all += step(x, k % NSTEP, r) + ";";
        mc::evaluated();
    }
    mc::outcome(all);
}

MC_SCENARIO(ts_mt, 0)
{
    Rig r;
    std::vector<std::unique_ptr<Who> > w;
    for (int i = 0; i < 2; i++)
        w.push_back(std::unique_ptr<Who>(new Who(r.r)));
    int first = mc::choose(4);
    std::string out[2];
    // the flag of the listed finding is written by Inits that ask for named sets
    bool before = mc::param("before", 0) && first;
    for (int i = 0; before && i < 2; i++)
        out[i] += step(*w[i], first >> i & 1, r);
    mc::sched_begin();
    std::vector<int> th;
    for (int i = 0; i < 2; i++)
        th.push_back(mc::spawn([&, i]() {
            if (!before)
                out[i] += step(*w[i], first >> i & 1, r);
            out[i] += step(*w[i], 3, r);
            out[i] += step(*w[i], 4, r);
            out[i] += step(*w[i], i ? 5 : 8, r);
        }));
    for (int x : th)
        mc::join(x);
    mc::sched_end();
    mc::evaluated();
    mc::outcome(out[0] + "|" + out[1]);
}

// everything is bounced
MC_SCENARIO(bo_all, 0)
{
    zh::quiet();
    int echo = mc::choose(3), k = mc::choose(NREQ + 2);
    yf::Bounce b;
    zh::configure(b, echo == 0 ? "<filter/>" : echo == 1 ? "<filter><echo>0</echo></filter>"
                  : "<filter><echo>true</echo></filter>");
    zh::Fn next([](mp::Package &) { mc::fail("passed", "request passed on"); });
    zh::Routes r;
    r.r[""].push_back(&b);
    r.r[""].push_back(&next);
    ODR o = odr_createmem(ODR_ENCODE);
    std::string w, got, body, type;
    Z_GDU *g = 0;
    if (k < NREQ)
    {
        g = request(o, k, w);
        if (!g)
        {
            odr_destroy(o);
            mc::vacuous();
            return;
        }
    }
    else if (k == NREQ)
        g = z_get_HTTP_Response(o, 200);
    if (g && g->which == Z_GDU_Z3950)
        zh::set_ref(o, g->u.z3950, "r");
    int ver = 0;
    if (g && g->which == Z_GDU_HTTP_Request && mc::flip())
    {
        ver = 1;
        g->u.HTTP_Request->version = odr_strdup(o, "1.0");
        z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "Connection", "Keep-Alive");
    }
    zh::Client c(r);
    std::string req;
    mp::Package p(c.session, c.origin);
    if (g)
        p.request() = yazpp_1::GDU(g);
    req = bytes(p.request().get());
    p.router(r);
    p.move();
    Z_GDU *a = p.response().get();
    mc::evaluated();
    if (!p.session().is_closed())
        mc::fail("open", "session left open after %s", w.c_str());
    if (bytes(p.request().get()) != req)
        mc::fail("changed", "request changed");
    if (!g || g->which == Z_GDU_HTTP_Response)
    {
        if (a)
            mc::fail("answer", "answer to %s", g ? "response" : "nothing");
    }
    else if (g->which == Z_GDU_Z3950)
    {
        bool known = zh::get_ref(g->u.z3950) == "r";
        if (!a || brief(a) != (known ? "close:2#r" : "close:2")
            || !a->u.z3950->u.close->diagnosticInformation
            || strncmp(a->u.z3950->u.close->diagnosticInformation, "BOUNCE Z3950 ", 13))
            mc::fail("answer", "%s answered with %s", w.c_str(), zh::desc(a).c_str());
    }
    else
    {
        if (!a || a->which != Z_GDU_HTTP_Response || a->u.HTTP_Response->code != 400
            || strcmp(a->u.HTTP_Response->version, ver ? "1.0" : "1.1"))
            mc::fail("answer", "%s answered with %s", w.c_str(), zh::desc(a).c_str());
        Z_HTTP_Response *h = a->u.HTTP_Response;
        std::string b(h->content_buf ? h->content_buf : "", h->content_len);
        const char *t = z_HTTP_header_lookup(h->headers, "Content-Type");
        if (echo == 2 && (b != req || !t || strcmp(t, "text/plain")))
            mc::fail("echo", "%s echoed as %.200s (%s)", w.c_str(), b.c_str(), t ? t : "-");
        if (echo != 2 && b.find("/x") != std::string::npos)
            mc::fail("echo", "%s echoed although not asked for", w.c_str());
    }
    mc::outcome(zh::desc(a).substr(0, 60));
    odr_destroy(o);
}
