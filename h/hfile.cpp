// Files served over HTTP.
// ONLY: filter_http_file plainfile package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_http_file.hpp"
#include <sys/stat.h>
#include <unistd.h>

static std::string base;        // scratch directory

static void put(const std::string &name, const std::string &text)
{
    std::string f = base + "/" + name;
    struct stat st;
    if (stat(f.c_str(), &st) == 0 && (size_t) st.st_size == text.size())
        return;
    // appear at once: other processes may be about to read it
    std::string t = f + "." + std::to_string(getpid());
    FILE *o = fopen(t.c_str(), "wb");
    if (!o || fwrite(text.data(), 1, text.size(), o) != text.size())
        mc::fail("harness:scratch", "cannot write %s", t.c_str());
    fclose(o);
    rename(t.c_str(), f.c_str());
}

static const char *const raw200 = "HTTP/1.1 203 Fine\r\nX-Y: z\r\n"
    "Content-Length: 4\r\n\r\nbody";

static void scratch()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    base = std::string(b, n > 0 ? n : 0);
    base = base.substr(0, base.rfind('/')) + "/scratch-http_file";
    static const char *const dirs[] = { "", "/R", "/R/s", "/R-x", "/R2", "/R/x.txt" };
    for (auto d : dirs)
        mkdir((base + d).c_str(), 0777);
    static const char *const files[] = { "R/a.txt", "R/s/b.html", "R/s/b", "R/a.b.txt",
        "R/a.none", "R/-x", "R/a b.txt", "R/s/a.txt", "R-x/a.txt", "R2/a.txt", "a.txt", "Ra.txt",
        "R2/s", "R/%", "R/a%2etxt", "R/.txt", "R/s/.b", "R/1" };
    for (auto f : files)
        put(f, f);
    put("R/empty.txt", "");
    put("R2/raw", raw200);
    put("R2/bad", "no response");
    put("R/full.txt", std::string(1000000, 'x'));
    put("R/big.txt", std::string(1000001, 'x'));
    mkfifo((base + "/R/pipe").c_str(), 0666);
    put("mime", "# types\n\ntext/plain\ttxt text\n  text/wrong b html\n"
        "text/html  html htm\n"
        "text/x " + std::string(300, 'y') + " " + std::string(700, 'z') + " none\n"
        "application/pdf\nimage/png png");
}

// the tree as the requests should see it: path below base -> 'd', 'f', other
static char look(const std::string &path)
{
    std::string cur = base;
    size_t p = base.size();
    char kind = 'd';
    for (;;)
    {
        if (p >= path.size())
            return kind;
        size_t q = path.find('/', p + 1);
        if (q == std::string::npos)
            q = path.size();
        std::string c = path.substr(p + 1, q - p - 1);
        p = q;
        if (kind != 'd')
            return 0;
        if (c == "" || c == ".")
            continue;
        if (c == "..")
            mc::fail("harness:look", "%s", path.c_str());
        cur += "/" + c;
        struct stat st;
        if (lstat(cur.c_str(), &st))
            return 0;
        kind = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : 'o';
    }
}

static std::string squeeze(const std::string &path)     // without // and /./
{
    std::string r;
    size_t p = 0;
    while (p < path.size())
    {
        size_t q = path.find('/', p + 1);
        if (q == std::string::npos)
            q = path.size();
        std::string c = path.substr(p, q - p);
        if (c != "/" && c != "/.")
            r += c;
        p = q;
    }
    return r;
}

struct Area { const char *prefix, *root; bool raw, pass; };
struct Conf { std::vector<Area> a; bool mime; };
static const Conf confs[] = {
    { { { "/d", "R", false, false } }, true },
    { { { "/d/", "R", false, false } }, true },
    { { { "/d", "R/", false, true } }, true },
    { { { "", "R", false, false } }, false },
    { { { "/d/s", "R2", false, true }, { "/d", "R", false, false } }, true },
    { { { "/d/raw", "R2/raw", true, false }, { "/d/", "R2/", true, true },
        { "/", "R", false, false } }, true },
};
enum { NCONF = sizeof(confs) / sizeof(*confs) };

static std::string xml(const Conf &c, bool nomime = false)
{
    std::string s = "<f xmlns='http://indexdata.com/metaproxy'>";
    if (c.mime && !nomime)
        s += "<mimetypes>" + base + "/mime</mimetypes>";
    for (auto &a : c.a)
    {
        s += "<area><documentroot>" + base + "/" + a.root + "</documentroot><prefix>"
            + std::string(a.prefix) + "</prefix>";
        if (a.raw)
            s += "<raw>true</raw>";
        if (a.pass)
            s += "<passthru>1</passthru>";
        s += "</area>";
    }
    return s + "</f>";
}

static int hex(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10
        : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

struct Want { std::string path, file, type; int code; bool pass, any, raw; };

static Want want(const Conf &c, const std::string &url, const std::string &method)
{
    Want w = Want();
    std::string u = url.substr(0, url.find_first_of("#?"));
    for (size_t i = 0; i < u.size(); i++)
    {
        if (u[i] != '%')
            w.path += u[i] == '+' ? ' ' : u[i];
        else if (i + 2 < u.size() && hex(u[i + 1]) >= 0 && hex(u[i + 2]) >= 0)
        {
            char ch = hex(u[i + 1]) * 16 + hex(u[i + 2]);
            if (!ch)
                w.any = true;
            w.path += ch;
            i += 2;
        }
        else
        {
            w.any = true;       // no URL
            w.path += '%';
        }
    }
    if (w.path.find("..") != std::string::npos)
    {
        w.pass = true;
        return w;
    }
    for (auto &a : c.a)
    {
        std::string pre = a.prefix;
        if (w.path.compare(0, pre.size(), pre))
            continue;
        std::string rest = w.path.substr(pre.size());
        std::string root = base + "/" + a.root;
        if (rest.size() && rest[0] != '/' && root[root.size() - 1] != '/')
            root += "/";
        w.file = root + rest;
        w.raw = a.raw;
        char k = look(w.file);
        if (method != "GET" || k != 'f')
        {
            w.pass = a.pass;
            w.code = method != "GET" ? 405 : 404;
            return w;
        }
        w.file = squeeze(w.file);
        struct stat st;
        stat(w.file.c_str(), &st);
        if (st.st_size > 1000000)
        {
            w.code = 404;
            return w;
        }
        w.code = 200;
        size_t d = w.file.rfind('.'), s = w.file.rfind('/');
        std::string e = d != std::string::npos && d > s ? w.file.substr(d + 1) : "";
        w.type = !c.mime ? "application/octet-stream"
            : e == "txt" || e == "text" ? "text/plain"
            : e == "html" || e == "htm" ? "text/html"
            : e == "none" ? "text/x" : "application/octet-stream";
        return w;
    }
    w.pass = true;
    return w;
}

struct Srv : public zh::Fn {
    std::string seen;
    Srv() {
        f = [this](mp::Package &p) {
            Z_GDU *g = p.request().get();
            std::string d = zh::desc(g);
            seen += "(" + d.substr(0, d.find('#')) + ")";   // fragments need not travel
            if (!g || g->which != Z_GDU_HTTP_Request)
                return;
            mp::odr o;
            p.response() = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 299);
        };
    }
};

static std::string text(const std::string &f)
{
    std::string s;
    FILE *i = fopen(f.c_str(), "rb");
    if (!i)
        mc::fail("harness:text", "%s", f.c_str());
    char b[8192];
    size_t n;
    while ((n = fread(b, 1, sizeof b, i)) > 0)
        s.append(b, n);
    fclose(i);
    return s;
}

static std::string ask(zh::Client &c, Srv *s, const Conf &cf, const std::string &url,
                       const std::string &method)
{
    ODR o = odr_createmem(ODR_ENCODE);
    int code = 0;
    std::string type, body, xy;
    if (s)
        s->seen.clear();
    std::string d = c.send(zh::http_req(o, url, method.c_str()), [&](mp::Package &p) {
        Z_GDU *g = p.response().get();
        if (!g || g->which != Z_GDU_HTTP_Response)
            return;
        Z_HTTP_Response *h = g->u.HTTP_Response;
        code = h->code;
        const char *t = z_HTTP_header_lookup(h->headers, "Content-Type");
        type = t ? t : "";
        t = z_HTTP_header_lookup(h->headers, "X-Y");
        xy = t ? t : "";
        body = std::string(h->content_buf ? h->content_buf : "", h->content_len);
    });
    odr_destroy(o);
    mc::evaluated();
    Want w = want(cf, url, method);
    std::string e = method + " " + url + " answered with " + std::to_string(code) + " "
        + type + " " + (body.size() < 200 ? body : "(" + std::to_string(body.size()) + ")");
    if (w.any)
    {   // whatever it is taken for, nothing but the files of the areas
        bool ok = code != 200;
        for (auto &a : cf.a)
            if (body.compare(0, strlen(a.root), a.root) == 0
                && (a.root[1] || body[1] == '/'))
                ok = true;
        if (body == raw200 || body.empty())
            ok = true;
        if (!ok)
            mc::fail("outside", "%s", e.c_str());
        return d;
    }
    if (s && (s->seen != (w.pass ? "(httpreq:" + url.substr(0, url.find('#')) + ")" : "")))
        mc::fail("passed", "%s; seen by the next filter: %s", e.c_str(), s->seen.c_str());
    if (w.pass)
    {
        if (code != 299)
            mc::fail("answer", "%s instead of the next filter's", e.c_str());
        return d;
    }
    std::string want_body;
    if (w.code == 200)
    {
        want_body = text(w.file);
        if (w.raw)
        {
            if (want_body == raw200)
            {
                w.code = 203;
                want_body = "body";
                if (xy != "z")
                    mc::fail("raw", "%s: header lost", e.c_str());
            }
            else
                w.code = 500;
            w.type = type;
        }
        else if (type != w.type)
            mc::fail("type", "%s instead of %s", e.c_str(), w.type.c_str());
    }
    if (code != w.code)
        mc::fail("code", "%s instead of %d", e.c_str(), w.code);
    if (code < 300 && body != want_body)
        mc::fail("body", "%s instead of %s", e.c_str(), w.file.c_str());
    if (code >= 400 && body.find("R") == 0)
        mc::fail("leak", "%s", e.c_str());
    return d;
}

static const char *const pieces[] = { "/", "d", ".", "..", "a.txt", "s", "R", "-x",
    "%2e", "%2F", "2", "%00", "%", "#", "?x", "b.html", "+" };
enum { NPIECES = sizeof(pieces) / sizeof(*pieces) };

// every URL of up to depth pieces
MC_SCENARIO(hf_urls, 0)
{
    zh::quiet();
    scratch();
    int depth = mc::param("depth", 4);
    const Conf &cf = confs[mc::choose(NCONF)];
    std::string out;
    {
        mp::RouterChain r;
        yf::HttpFile f;
        Srv s;
        r.append(f);
        r.append(s);
        zh::configure(f, xml(cf));
        zh::Client c(r);
        // the last two pieces are enumerated here: one configuration for many
        static const char *const heads[] = { "/d", "/d/", "/", "/d/./", "/d/s",
                                             "/d/a%2etxt", "" };
        std::string u = heads[mc::choose(7)];
        for (int i = 3; i < depth; i++)
            u += pieces[mc::choose(NPIECES)];
        ask(c, &s, cf, u, "GET");
        for (auto a : pieces)
        {
            ask(c, &s, cf, u + a, "GET");
            for (auto b : pieces)
            {
                ask(c, &s, cf, u + a + b, "GET");
                for (auto e : pieces)
                    ask(c, &s, cf, u + a + b + e, "GET");
            }
        }
        c.close();
        out = u;
    }
    mc::outcome(out);
    mc::state(out);
}

static const char *const special[] = { "/d/a.txt", "/d/empty.txt", "/d/full.txt",
    "/d/big.txt", "/d/pipe", "/d/x.txt", "/d/x.txt/", "/d/s/b", "/d/s/.b", "/d/.txt",
    "/d/a.b.txt", "/d/a.none", "/d/a%20b.txt", "/d/a+b.txt", "/d/%25", "/d/a%252etxt",
    "/d/a.b.txt?q=../R", "/d/a.txt#x.html", "/d/raw", "/d/bad", "/d/missing", "/d/s/",
    "/d", "/e", "/d/a..txt", "/d/..%2fa.txt", "/d/%2E%2e/a.txt", "/d/-x", "/d-x/a.txt",
    "/d/1", "/d/1/", "/full.txt", "/a.txt", "d/a.txt" };
enum { NSPECIAL = sizeof(special) / sizeof(*special) };

// every sequence of requests with every method for files of all kinds
MC_SCENARIO(hf_files, 0)
{
    zh::quiet();
    scratch();
    int depth = mc::param("depth", 2);
    const Conf &cf = confs[mc::choose(NCONF)];
    std::string out;
    {
        mp::RouterChain r;
        yf::HttpFile f;
        Srv s;
        r.append(f);
        r.append(s);
        zh::configure(f, xml(cf));
        zh::Client c(r);
        static const char *const methods[] = { "GET", "POST", "HEAD", "get" };
        for (int i = 0; i < depth; i++)
        {
            const char *u = special[mc::choose(NSPECIAL)];
            const char *m = methods[mc::choose(4)];
            std::string d = ask(c, &s, cf, u, m);
            if (d.size() > 100)
                d = std::to_string(d.size());
            out += std::string(m) + u + "=" + d + " ";
            if (c.closed)
                mc::fail("closed", "session closed after %s", out.c_str());
        }
        // anything but HTTP is passed on
        s.seen.clear();
        ODR o = odr_createmem(ODR_ENCODE);
        c.send(zh::search_req(o, "a", "1", zh::v("x"), true, "r"));
        odr_destroy(o);
        if (s.seen.find("searchreq") == std::string::npos)
            mc::fail("z3950", "search not passed on: %s", s.seen.c_str());
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// configurations
MC_SCENARIO(hf_conf, 0)
{
    zh::quiet();
    scratch();
    static const char *const texts[] = { "", "text/plain txt\n", "text/plain txt",
        "#text/plain txt\n", "\ttext/wrong txt\n", "text/html html",
        "text/plain\t \ttxt  text \n", "\n", "text/a A\ntext/plain txt\n", "text/plain\n" };
    int depth = mc::param("depth", 2);
    std::string t, type = "application/octet-stream";
    bool plain = false, open = false;   // open: line not ended
    int len = mc::choose(4);    // a long line first
    static const size_t lens[] = { 0, 253, 255, 5000 };
    if (lens[len])
        t = std::string(mc::choose(2) ? "#" : "text/y ") + std::string(lens[len], 'y') + "\n";
    for (int i = 0; i < depth; i++)
    {
        int k = mc::choose(10);
        if (open && t.size())
            t += "\n";
        t += texts[k];
        open = texts[k][0] && texts[k][strlen(texts[k]) - 1] != '\n';
        if (k == 1 || k == 2 || k == 6 || k == 8)
            plain = true;
    }
    // nothing but this child's own file
    std::string fn = base + "/m" + std::to_string(getpid());
    FILE *o = fopen(fn.c_str(), "wb");
    fwrite(t.data(), 1, t.size(), o);
    fclose(o);
    std::string err;
    {
        mp::RouterChain r;
        yf::HttpFile f;
        r.append(f);
        int how = mc::choose(4);
        std::string m = how == 0 ? fn : how == 1 ? base : how == 2 ? base + "/none" : fn;
        std::string x = "<f xmlns='http://indexdata.com/metaproxy'><mimetypes>" + m
            + "</mimetypes>" + (how == 3 ? "<bad/>" : "")
            + "<area><documentroot>" + base + "/R</documentroot><prefix>/d</prefix>"
            "</area></f>";
        bool ok = zh::configure_ok(f, x, &err);
        unlink(fn.c_str());
        mc::evaluated();
        if (how >= 2 && ok)
            mc::fail("config", "accepted: %s", x.c_str());
        if (how == 0 && !ok)
            mc::fail("config", "refused: %s: %s", t.c_str(), err.c_str());
        if (ok)
        {
            zh::Client c(r);
            ODR e = odr_createmem(ODR_ENCODE);
            c.send(zh::http_req(e, "/d/a.txt"), [&](mp::Package &p) {
                Z_GDU *g = p.response().get();
                const char *h = g && g->which == Z_GDU_HTTP_Response
                    ? z_HTTP_header_lookup(g->u.HTTP_Response->headers, "Content-Type") : 0;
                type = h ? h : "";
            });
            odr_destroy(e);
            c.close();
            if (type != (plain && how == 0 ? "text/plain" : "application/octet-stream"))
                mc::fail("type", "%s with types \"%s\"", type.c_str(), t.c_str());
        }
    }
    mc::outcome(type + err.substr(0, 20));
    mc::state(type);
}

// sessions at the same time
MC_SCENARIO(hf_mt, 0)
{
    zh::quiet();
    scratch();
    mc::sched_begin();
    const Conf &cf = confs[mc::choose(2) ? 4 : 0];
    static const char *const urls[] = { "/d/a.txt", "/d/s/b.html", "/e", "/d/none", "/d/a.none" };
    const char *u[2];
    u[0] = urls[mc::choose(5)];
    u[1] = urls[mc::choose(5)];
    std::string res[2];
    {
        mp::RouterChain r;
        yf::HttpFile f;
        zh::Fn s([](mp::Package &p) {
            mc::point("next");
            Z_GDU *g = p.request().get();
            mp::odr o;
            if (g && g->which == Z_GDU_HTTP_Request)
                p.response() = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 299);
        });
        r.append(f);
        r.append(s);
        zh::configure(f, xml(cf));
        int t[2];
        for (int i = 0; i < 2; i++)
            t[i] = mc::spawn([&, i]() {
                zh::Client c(r, i ? "1.2.3.5 @:9000" : "1.2.3.4 @:9000");
                res[i] = ask(c, 0, cf, u[i], "GET");
                c.close();
            });
        mc::join(t[0]);
        mc::join(t[1]);
    }
    mc::sched_end();
    mc::outcome(res[0] + "|" + res[1]);
}
