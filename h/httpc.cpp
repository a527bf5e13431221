// The HTTP client.  yaz_url_* is answered by the harness.
// ONLY: filter_http_client package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_http_client.hpp"
#include <yaz/url.h>

typedef std::vector<std::pair<std::string, std::string> > Heads;

struct Call {
    std::string uri, method, body, proxy;
    int redirects;
    Heads h;
};

// what the far end answers
struct Far {
    int code;
    const char *error;
    const char *body;
    int len;
    Heads h;
};
static const Far fars[] = {
    { 200, 0, "hello", 5, { { "Content-Type", "text/plain" } } },
    { 301, 0, "", 0, { { "Location", "http://t/x" }, { "Content-Length", "0" } } },
    { 200, 0, "a\0b\r\n\r\nc", 8, { { "transfer-encoding", "chunked" }, { "X-Z", "" },
                                    { "Set-Cookie", "a" }, { "Set-Cookie", "b" } } },
    { 404, 0, "none", 4, { { "Connection", "close" }, { "Transfer-Encoding", "chunked" },
                           { "Content-Type", "text/html" } } },
    { 0, "Connect failed <&>", 0, 0, {} },
    { 599, 0, "x", 1, {} },
};
enum { NFAR = sizeof(fars) / sizeof(*fars) };

struct yaz_url {
    ODR o;
    std::string proxy, error;
    int redirects;
    bool used;
};

static mc::NoRace *lk;
static std::vector<Call> calls;
static int alive, made;
static std::function<int(const Call &)> answer;

extern "C" {
    yaz_url_t yaz_url_create(void)
    {
        yaz_url_t p = new yaz_url;
        p->o = odr_createmem(ODR_ENCODE);
        p->redirects = -1;
        p->used = false;
        mc::NoRace n;
        alive++;
        made++;
        return p;
    }
    void yaz_url_destroy(yaz_url_t p)
    {
        if (!p)
            return;
        odr_destroy(p->o);
        delete p;
        mc::NoRace n;
        alive--;
    }
    void yaz_url_set_proxy(yaz_url_t p, const char *s)
    {
        p->proxy = s ? s : "";
    }
    void yaz_url_set_max_redirects(yaz_url_t p, int num)
    {
        p->redirects = num;
    }
    void yaz_url_set_verbose(yaz_url_t, int) {}
    void yaz_url_set_timeout(yaz_url_t, int, int) {}
    const char *yaz_url_get_error(yaz_url_t p)
    {
        return p->error.c_str();
    }
    Z_HTTP_Response *yaz_url_exec(yaz_url_t p, const char *uri, const char *method,
                                  Z_HTTP_Header *headers, const char *buf, size_t len)
    {
        Call c;
        c.uri = uri;
        c.method = method;
        c.body = std::string(buf ? buf : "", buf ? len : 0);
        c.proxy = p->proxy;
        c.redirects = p->redirects;
        for (; headers; headers = headers->next)
            c.h.push_back(std::make_pair(headers->name, headers->value));
        mc::point("exec");
        int k;
        {
            mc::NoRace n;
            k = answer(c);
            calls.push_back(c);
        }
        const Far &f = fars[k];
        if (f.error)
        {
            p->error = f.error;
            return 0;
        }
        Z_GDU *g = z_get_HTTP_Response(p->o, f.code);
        Z_HTTP_Response *r = g->u.HTTP_Response;
        r->headers = 0;
        for (auto &h : f.h)
            z_HTTP_header_add(p->o, &r->headers, h.first.c_str(), h.second.c_str());
        r->content_len = f.len;
        r->content_buf = (char *) odr_malloc(p->o, f.len + 1);
        memcpy(r->content_buf, f.body, f.len);
        return r;
    }
}

struct Conf { const char *host, *proxy; int redirects; int xff, bind; };

static std::string xml(const Conf &c)
{
    std::string s = "<f xmlns='http://indexdata.com/metaproxy'>";
    if (c.proxy)
        s += std::string("<proxy>") + c.proxy + "</proxy>";
    if (c.redirects >= 0)
        s += "<max-redirects>" + std::to_string(c.redirects) + "</max-redirects>";
    if (c.host)
        s += std::string("<default-host>") + c.host + "</default-host>";
    static const char *const t[] = { 0, "false", "true", "1" };
    if (c.xff)
        s += std::string("<x-forwarded-for>") + t[c.xff] + "</x-forwarded-for>";
    if (c.bind)
        s += std::string("<bind_host>") + t[c.bind] + "</bind_host>";
    return s + "</f>";
}

static bool same(const std::string &a, const char *b)
{
    return !strcasecmp(a.c_str(), b);
}

static std::string show(const Heads &h)
{
    std::string s;
    for (auto &x : h)
        s += "{" + x.first + ": " + x.second + "}";
    return s;
}

static std::string show(const Call &c)
{
    return c.method + " [" + c.uri + "] " + show(c.h) + " body " + c.body + " proxy "
        + c.proxy + " redirects " + std::to_string(c.redirects);
}

struct Req {
    std::string path, method, version, body;
    Heads h;
};

static const char *const paths[] = { "/", "/a/b?c=/d&e%20", "http://t/x?y", "https://u:1/",
                                     "ftp://f", "//t/x", "t" };
enum { NPATH = 7 };

// headers that matter
static const char *const px[] = { 0, "p2:1", "", "p3/u" };
static const Heads xff[] = {
    {}, { { "X-Forwarded-For", "9.9.9.9" } }, { { "x-forwarded-for", "8.8.8.8, 7.7.7.7" } },
    { { "X-Forwarded-For", "9.9.9.9" }, { "X-forwarded-for", "5.5.5.5" } },
};

static Z_GDU *gdu(ODR o, const Req &r)
{
    Z_GDU *g = zh::http_req(o, r.path, r.method.c_str(), r.body);
    Z_HTTP_Request *h = g->u.HTTP_Request;
    h->version = odr_strdup(o, r.version.c_str());
    h->headers = 0;
    for (auto &x : r.h)
        z_HTTP_header_add(o, &h->headers, x.first.c_str(), x.second.c_str());
    return g;
}

// what must be asked, if anything
static bool want(const Conf &c, const Req &r, const std::string &peer,
                 const std::string &bind, Call &w)
{
    w = Call();
    if (r.path[0] == '/')
    {
        if (!c.host)
            return false;
        w.uri = c.host + r.path;
    }
    else
        w.uri = r.path;
    if (c.bind >= 2)
        w.uri += " " + bind;
    w.method = r.method;
    w.body = r.body;
    w.proxy = c.proxy ? c.proxy : "";
    w.redirects = c.redirects < 0 ? 0 : c.redirects;
    std::string f;
    bool first = true;
    for (auto &x : r.h)
    {
        if (same(x.first, "X-Metaproxy-Proxy"))
        {
            if (first)
                w.proxy = x.second;
            first = false;
        }
        else if (same(x.first, "Transfer-Encoding"))
            ;               // the body was decoded
        else if (c.xff >= 2 && same(x.first, "X-Forwarded-For"))
            f += x.second + ", ";
        else
            w.h.push_back(x);
    }
    if (c.xff >= 2)
        w.h.push_back(std::make_pair("X-Forwarded-For", f + peer));
    return true;
}

static bool less(const std::pair<std::string, std::string> &a,
                 const std::pair<std::string, std::string> &b)
{
    return strcasecmp(a.first.c_str(), b.first.c_str()) < 0;
}

// order matters only among headers of the same name
static std::string norm(Call c)
{
    std::stable_sort(c.h.begin(), c.h.end(), less);
    for (auto &x : c.h)
        for (auto &ch : x.first)
            ch = tolower(ch);
    // body length may be told
    Heads h;
    for (auto &x : c.h)
        if (x.first != "content-length")
            h.push_back(x);
    c.h = h;
    return show(c);
}

// requests of one client; asked: what went out
struct Check {
    const Conf *c;
    std::string peer, bind;
    std::string one(zh::Client &cl, const Req &r, std::function<int(const Call &)> pick,
                    std::vector<Call> *asked)
    {
        ODR o = odr_createmem(ODR_ENCODE);
        int code = 0;
        Heads h;
        std::string body;
        bool http = false;
        cl.send(gdu(o, r), [&](mp::Package &p) {
            Z_GDU *g = p.response().get();
            if (!g || g->which != Z_GDU_HTTP_Response)
                return;
            Z_HTTP_Response *s = g->u.HTTP_Response;
            http = true;
            code = s->code;
            for (Z_HTTP_Header *x = s->headers; x; x = x->next)
                h.push_back(std::make_pair(x->name, x->value));
            body = std::string(s->content_buf ? s->content_buf : "", s->content_len);
        });
        odr_destroy(o);
        mc::evaluated();
        std::string e = r.method + " " + r.path + " " + show(r.h);
        if (!http)
            mc::fail("answer", "%s: no HTTP response", e.c_str());
        Call w;
        bool any = want(*c, r, peer, bind, w);
        std::string got;
        {
            mc::NoRace n;
            for (auto &x : *asked)
                got += norm(x) + ";";
        }
        std::string exp = any ? norm(w) + ";" : "";
        if (got != exp)
            mc::fail("asked", "%s with %s asked %s instead of %s", e.c_str(), xml(*c).c_str(),
                     got.c_str(), exp.c_str());
        // connection
        bool close = r.version == "1.0";
        for (auto &x : r.h)
            if (same(x.first, "Connection"))
                close = r.version == "1.0" ? x.second != "Keep-Alive" : x.second == "close";
        if (cl.closed != close)
            mc::fail("closed", "%s version %s: session %s", e.c_str(), r.version.c_str(),
                     cl.closed ? "closed" : "not closed");
        int k = any ? pick(w) : -1;
        if (k < 0 || fars[k].error)
        {
            int wc = k < 0 ? 404 : 502;
            if (code != wc)
                mc::fail("code", "%s: %d instead of %d", e.c_str(), code, wc);
            std::string t = k < 0 ? "no target" : "Connect failed";
            if (body.find(t) == std::string::npos)
                mc::fail("reason", "%s: reason not told: %s", e.c_str(), body.c_str());
            return std::to_string(code);
        }
        const Far &f = fars[k];
        Heads wh;
        for (auto &x : f.h)
            if (!same(x.first, "Transfer-Encoding"))
                wh.push_back(x);
        Call a, b;
        a.redirects = b.redirects = 0;
        a.h = h, b.h = wh;
        a.body = body, b.body = std::string(f.body, f.len);
        if (code != f.code || norm(a) != norm(b))
            mc::fail("response", "%s: %d %s instead of %d %s", e.c_str(), code,
                     norm(a).c_str(), f.code, norm(b).c_str());
        for (auto &x : h)
            if (same(x.first, "Content-Length") && x.second != std::to_string(f.len))
                mc::fail("length", "%s: Content-Length %s", e.c_str(), x.second.c_str());
        return std::to_string(code) + std::to_string(k);
    }
};

static Req pick_req(int more)
{
    Req r;
    r.path = paths[mc::choose(more ? 3 : NPATH)];
    r.method = "GET";
    r.version = "1.1";
    static const char *const meth[] = { "GET", "POST", "HEAD", "PUT" };
    if (more)
    {
        r.method = meth[mc::choose(4)];
        if (mc::flip())
            r.version = "1.0";
    }
    if (r.method[0] == 'P' && mc::flip())
        r.body = "some\r\n\r\nbody";
    r.h.push_back(std::make_pair("Host", "me"));
    int p = mc::choose(more ? 2 : 4);
    int f = mc::choose(more ? 2 : 4);
    r.h.push_back(std::make_pair("X-A", "1"));
    if (px[p])
        r.h.push_back(std::make_pair(more && p == 1 ? "x-metaproxy-proxy"
                                     : "X-Metaproxy-Proxy", px[p]));
    for (auto &x : xff[f])
        r.h.push_back(x);
    r.h.push_back(std::make_pair("X-A", "2"));
    if (more)
    {
        static const char *const con[] = { 0, "close", "Keep-Alive" };
        int k = mc::choose(3);
        if (con[k])
            r.h.push_back(std::make_pair("Connection", con[k]));
    }
    return r;
}

static Conf pick_conf()
{
    static const char *const hosts[] = { 0, "http://back:8/r", "https://b" };
    static const char *const prox[] = { 0, "p1:3128" };
    Conf c;
    c.host = hosts[mc::choose(3)];
    c.proxy = prox[mc::choose(2)];
    c.redirects = mc::choose(3) - 1;
    if (c.redirects == 1)
        c.redirects = 7;
    c.xff = mc::choose(4);
    c.bind = mc::choose(3);
    return c;
}

static void begin()
{
    zh::quiet();
    calls.clear();
    alive = made = 0;
}

static void finish()
{
    if (alive)
        mc::fail("leak", "%d connections left of %d", alive, made);
}

// one request of every kind with every configuration
MC_SCENARIO(hc_one, 0)
{
    begin();
    Conf c = pick_conf();
    std::string out;
    {
        mp::RouterChain r;
        yf::HTTPClient f;
        zh::Fn next;
        next.f = [](mp::Package &) { mc::fail("passed", "HTTP request passed on"); };
        r.append(f);
        r.append(next);
        zh::configure(f, xml(c));
        zh::Client cl(r, "1.2.3.4 @:9000");
        bool fwd = mc::flip();
        if (fwd)
            cl.origin.set_tcpip_address("6.6.6.6, 5.5.5.5", cl.session.id());
        Req q = pick_req(c.xff < 3 && c.redirects < 1);
        int k = c.xff == 0 || c.xff == 2 ? mc::choose(NFAR) : 0;
        answer = [&](const Call &) { return k; };
        Check ck = { &c, "1.2.3.4", "@:9000" };
        out = ck.one(cl, q, answer, &calls);
    }
    finish();
    mc::outcome(out);
    mc::state(out);
}

// sequences of requests, over several sessions
MC_SCENARIO(hc_seq, 0)
{
    begin();
    int depth = mc::param("depth", 2);
    Conf c = { mc::flip() ? "http://d" : 0, mc::flip() ? "p1:1" : 0, 3, mc::flip() ? 2 : 0,
               mc::flip() ? 2 : 0 };
    std::string out;
    {
        mp::RouterChain r;
        yf::HTTPClient f;
        zh::Fn next;
        std::string seen;
        next.f = [&](mp::Package &p) { seen += zh::desc(p.request().get()); };
        r.append(f);
        r.append(next);
        zh::configure(f, xml(c));
        std::vector<std::unique_ptr<zh::Client> > cl(2);
        for (int i = 0; i < depth; i++)
        {
            int w = i ? mc::choose(2) : 0;
            if (!cl[w] || cl[w]->closed)
                cl[w].reset(new zh::Client(r, w ? "1.1.1.1 a" : "2.2.2.2 b"));
            if (mc::flip())
            {   // other protocols go on
                ODR o = odr_createmem(ODR_ENCODE);
                seen.clear();
                calls.clear();
                cl[w]->send(zh::search_req(o, "a", "1", zh::v("x"), true, "r"));
                odr_destroy(o);
                if (seen.find("searchreq") == std::string::npos || calls.size())
                    mc::fail("z3950", "search not passed on: %s", seen.c_str());
                out += "z";
                continue;
            }
            Req q;
            q.path = paths[mc::choose(3)];
            q.method = mc::flip() ? "POST" : "GET";
            if (q.method == "POST")
                q.body = "b" + std::to_string(i);
            q.version = "1.1";
            if (mc::flip())
                q.h.push_back(std::make_pair("X-Metaproxy-Proxy", "p" + std::to_string(i)));
            if (mc::flip())
                q.h.push_back(std::make_pair("X-Forwarded-For", std::to_string(i)));
            if (mc::flip())
                q.h.push_back(std::make_pair("Connection", "close"));
            int k = mc::choose(3) * 2;
            answer = [&](const Call &) { return k; };
            calls.clear();
            seen.clear();
            Check ck = { &c, w ? "1.1.1.1" : "2.2.2.2", w ? "a" : "b" };
            out += ck.one(*cl[w], q, answer, &calls) + (w ? "B" : "A");
            if (seen.size())
                mc::fail("passed", "HTTP request passed on");
        }
        for (auto &x : cl)
            if (x)
            {
                calls.clear();
                x->close();
                if (calls.size())
                    mc::fail("close", "asked for a closed session");
            }
    }
    finish();
    mc::outcome(out);
    mc::state(out);
}

// requests of two sessions at a time
MC_SCENARIO(hc_mt, 1)
{
    begin();
    Conf c = { "http://d", mc::flip() ? "p1:1" : 0, 0, 2, mc::flip() ? 2 : 0 };
    int kinds[2] = { mc::choose(NFAR), mc::choose(3) };
    bool own = mc::flip();
    {
        mp::RouterChain r;
        yf::HTTPClient f;
        r.append(f);
        zh::configure(f, xml(c));
        std::vector<Call> got[2];
        answer = [&](const Call &x) {
            int w = x.method == "POST";
            got[w].push_back(x);
            return kinds[w];
        };
        mc::sched_begin();
        std::vector<int> t;
        for (int w = 0; w < 2; w++)
            t.push_back(mc::spawn([&, w] {
                zh::Client cl(r, w ? "1.1.1.1 a" : "2.2.2.2 b");
                Req q;
                q.path = w ? "http://other/" : "/x";
                q.method = w ? "POST" : "GET";
                q.body = w ? "bbb" : "";
                q.version = "1.1";
                if (w && own)
                    q.h.push_back(std::make_pair("X-Metaproxy-Proxy", "p9"));
                Check ck = { &c, w ? "1.1.1.1" : "2.2.2.2", w ? "a" : "b" };
                ck.one(cl, q, [&, w](const Call &) { return kinds[w]; }, &got[w]);
                cl.close();
            }));
        for (auto x : t)
            mc::join(x);
        mc::sched_end();
    }
    finish();
    mc::outcome(std::to_string(kinds[0]) + std::to_string(kinds[1]));
    mc::state(std::to_string(kinds[0]) + std::to_string(kinds[1]));
}

// configurations: taken as they are written, or refused
MC_SCENARIO(hc_conf, 0)
{
    begin();
    static const struct { const char *x; bool ok; } els[] = {
        { "<default-host>http://a</default-host>", true },
        { "<default-host>a:80</default-host>", false },
        { "<default-host>//a</default-host>", false },
        { "<max-redirects>2</max-redirects>", true },
        { "<max-redirects>two</max-redirects>", true },
        { "<proxy>p:1</proxy>", true },
        { "<x-forwarded-for>true</x-forwarded-for>", true },
        { "<x-forwarded-for>maybe</x-forwarded-for>", true },
        { "<bind_host>false</bind_host>", true },
        { "<bind_host>yes</bind_host>", true },
        { "<bind-host>true</bind-host>", false },
        { "<Proxy>p</Proxy>", false },
        { "<!-- x -->", true },
    };
    int depth = mc::param("depth", 3);
    std::string x = "<f xmlns='http://indexdata.com/metaproxy'>", out;
    bool ok = true;
    for (int i = 0; i < depth; i++)
    {
        int k = mc::choose(14);
        if (k == 13)
            break;
        x += els[k].x;
        ok = ok && els[k].ok;
    }
    x += "</f>";
    {
        yf::HTTPClient f;
        std::string err;
        mc::evaluated();
        bool r = zh::configure_ok(f, x, &err);
        if (r != ok)
            mc::fail("conf", "%s %s", x.c_str(), r ? "accepted" : err.c_str());
        if (!r && err.empty())
            mc::fail("reason", "%s refused without reason", x.c_str());
        out = r ? "accepted" : err;
    }
    mc::outcome(out);
    mc::state(out);
}
