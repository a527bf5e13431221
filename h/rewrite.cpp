// HTTP rewriting.
// ONLY: filter_http_rewrite filter_http_rewrite1 html_parser package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_http_rewrite.hpp"
#include "filter_http_rewrite1.hpp"
#include <regex>

struct Web : public zh::Fn {
    std::string path, headers, body;                // the request as it arrives
    std::string ctype, page, location, other;       // and the answer
    Web() { f = [this](mp::Package &p) { serve(p); }; }
    static std::string list(Z_HTTP_Header *h)
    {
        std::string s;
        for (; h; h = h->next)
            s += std::string(h->name) + ": " + h->value + "\n";
        return s;
    }
    void serve(mp::Package &p)
    {
        Z_GDU *g = p.request().get();
        if (!g || g->which != Z_GDU_HTTP_Request)
            return;
        mc::point("server");
        Z_HTTP_Request *h = g->u.HTTP_Request;
        {
            mc::NoRace nr;
            path = h->path;
            headers = list(h->headers);
            body = std::string(h->content_buf ? h->content_buf : "", h->content_len);
        }
        mp::odr o;
        Z_GDU *r = o.create_HTTP_Response(p.session(), h, 200);
        Z_HTTP_Response *x = r->u.HTTP_Response;
        x->headers = 0;
        if (ctype.size())
            z_HTTP_header_add(o, &x->headers, "Content-Type", ctype.c_str());
        if (location.size())
            z_HTTP_header_add(o, &x->headers, "Location", location.c_str());
        if (other.size())
            z_HTTP_header_add(o, &x->headers, "Other", other.c_str());
        x->content_buf = (char *) odr_malloc(o, page.size() + 1);
        memcpy(x->content_buf, page.data(), page.size());
        x->content_buf[page.size()] = 0;
        x->content_len = (int) page.size();
        p.response() = r;
    }
};

struct Answer { int code; std::string headers, body; };

static Answer ask(zh::Client &c, Z_GDU *g)
{
    Answer r;
    r.code = 0;
    try {
        c.send(g, [&](mp::Package &p) {
            Z_GDU *a = p.response().get();
            if (!a || a->which != Z_GDU_HTTP_Response)
                mc::fail("http", "no HTTP response");
            Z_HTTP_Response *h = a->u.HTTP_Response;
            r.code = h->code;
            const char *l = z_HTTP_header_lookup(h->headers, "Content-Length");
            if (l && atoi(l) != h->content_len)
                mc::fail("length", "Content-Length %s of %d bytes", l,
                         h->content_len);
            z_HTTP_header_remove(&h->headers, "Content-Length");
            r.headers = Web::list(h->headers);
            r.body = std::string(h->content_buf ? h->content_buf : "",
                                 h->content_len);
        });
    }
    catch (std::exception &e)
    {
        mc::fail("exception", "request ends the proxy: %s", e.what());
    }
    if (c.closed)
        mc::fail("closed", "connection closed");
    return r;
}

static std::string xmlesc(const std::string &s)
{
    std::string r;
    for (char c : s)
        r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;"
            : c == '\'' ? "&apos;" : std::string(1, c);
    return r;
}

// rules: at each place the first of the rewrites with the leftmost match
struct Rw { const char *from, *re, *to; int groups; const char *names[2]; };

static std::string expand(const std::string &to,
                          const std::map<std::string, std::string> &vars)
{
    std::string out;
    for (size_t i = 0; i < to.size(); i++)
        if (to[i] == '\\')
            out += to[++i];
        else if (to[i] == '$')
        {
            size_t e = to.find('}', i);
            auto it = vars.find(to.substr(i + 2, e - i - 2));
            if (it != vars.end())
                out += it->second;
            i = e;
        }
        else
            out += to[i];
    return out;
}

static std::string replace(const std::string &txt, const std::vector<const Rw *> &l,
                           std::map<std::string, std::string> &vars, bool anchor,
                           const char *skip)
{
    std::string out;
    size_t p = 0;
    bool any = false;
    while (p <= txt.size())
    {
        const Rw *w = 0;
        std::smatch m;
        for (const Rw *r : l)
        {
            bool first = r->from[0] == '^';
            if (first && (!anchor || any || p > 0))
                continue;
            std::regex re(first ? r->re + 1 : r->re);
            if (std::regex_search(txt.begin() + p, txt.end(), m, re,
                                  std::regex_constants::match_continuous))
            {
                w = r;
                break;
            }
        }
        if (w)
        {
            any = true;
            for (int i = 0; i < w->groups; i++)
                if (w->names[i])
                    vars[w->names[i]] = m.str(i + 1);
            std::string all = m.str(0);
            if (skip && all.find(skip) != std::string::npos)
                out += all;
            else
                out += expand(w->to, vars);
            p += all.size();
            if (all.size())
                continue;
        }
        if (p < txt.size())
            out += txt[p];
        p++;
    }
    return out;
}

static const Rw rws[] = {
    { "a", "a", "b", 0, { 0, 0 } },
    { "ab", "ab", "<${x}>", 0, { 0, 0 } },
    { "^a", "^a", "^", 0, { 0, 0 } },
    { "x*", "x*", "-", 0, { 0, 0 } },
    { "(?<x>b+)(?P<y>a)", "(b+)(a)", "${y}${x}", 2, { "x", "y" } },
    { "(?:a)(?<x>x)?", "(?:a)(x)?", "[${x}\\$]", 1, { "x", 0 } },
    { "(a)(?<y>b)", "(a)(b)", "${y}${no}", 2, { 0, "y" } },
    { "a(?=b)(?<x>.)", "a(?=b)(.)", "(${x})", 1, { "x", 0 } },
    { "\\(?<x>", "\\(?<x>", "p", 0, { 0, 0 } },
    { "[(](?<y>a)", "[(](a)", "q${y}", 1, { "y", 0 } },
};

MC_SCENARIO(hr_rules, 0)
{
    zh::quiet();
    std::string out;
    int n = mc::param("rules", 2), len = mc::param("len", 3);
    std::vector<const Rw *> l;
    int k = mc::choose(n) + 1;
    for (int i = 0; i < k; i++)
        l.push_back(&rws[mc::choose(sizeof rws / sizeof *rws)]);
    bool split = k > 1 && mc::choose(2);    // two rules instead of one
    int skip = mc::choose(3);               // 0: none, 1: for the page, 2: for another
    std::string alphabet = mc::param("paren", 0) ? "a(b<" : "abx";
    std::string txt;
    for (int i = mc::choose(len) + 1; i > 0; i--)
        txt += alphabet[mc::choose((int) alphabet.size())];
    std::string x = "<f><response><rule name='r0'>", names = "r0";
    for (int i = 0; i < k; i++)
    {
        if (i && split)
            x += "</rule><rule name='r" + std::to_string(i) + "'>", names += ",r"
                + std::to_string(i);
        x += "<rewrite from='" + xmlesc(l[i]->from) + "' to='" + xmlesc(l[i]->to)
            + "'/>";
    }
    x += "</rule><content type='headers'><within header='location' rule='" + names
        + "'/></content><content type='html' mime='text/html.*'><within attr='href' "
        "rule='" + names + "'/><within tag='t' attr='#text' rule='" + names
        + "'/></content></response></f>";
    mc::note("text %s, configuration %s", txt.c_str(), x.c_str());
    {
        mp::RouterChain r;
        yf::HttpRewrite f;
        Web s;
        r.append(f);
        r.append(s);
        zh::configure(f, x);
        s.ctype = "text/html";
        s.location = txt;
        s.other = txt;
        std::string t2 = txt.find('<') == std::string::npos ? txt : "x";
        s.page = "<t href=\"" + txt + "\" no=\"" + txt + "\">" + t2 + "</t>" + t2;
        zh::Client c(r);
        ODR o = odr_createmem(ODR_ENCODE);
        Z_GDU *g = zh::http_req(o, "/x/y");
        if (skip)
        {
            z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "Host", "h");
            z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "X-Metaproxy-SkipLink",
                              skip == 1 ? "h/x b" : "h/z b");
        }
        Answer a = ask(c, g);
        odr_destroy(o);
        mc::evaluated();
        if (s.headers.find("SkipLink") != std::string::npos)
            mc::fail("skip", "SkipLink header passed on");
        std::map<std::string, std::string> vars;
        std::string want = "Content-Type: text/html\nLocation: "
            + replace(txt, l, vars, true, 0) + "\nOther: " + txt + "\n";
        if (a.headers != want)
            mc::fail("headers", "%s, expected %s", a.headers.c_str(), want.c_str());
        const char *sk = skip == 1 ? "b" : 0;
        std::string r1 = replace(txt, l, vars, true, sk);
        want = "<t href=\"" + r1 + "\" no=\"" + txt + "\">";
        want += replace(t2, l, vars, false, sk);
        want += "</t>" + t2;
        if (a.body != want)
            mc::fail("body", "%s, expected %s", a.body.c_str(), want.c_str());
        out = a.headers + a.body;
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// where in a page rules are used
static const char *const conf =
    "<f><request><rule name='url'>"
    "<rewrite from='^(?&lt;proto>https?://)(?&lt;px>[^ /]+)/(?&lt;host>[^ /]+)"
    "(?&lt;path>[^ ]*)' to='${proto}${host}${path}'/></rule>"
    "<rule name='c'><rewrite from='px' to='${host}'/></rule>"
    "<content type='headers'><within reqline='1' rule='url'/>"
    "<within header='cook.*' rule='c'/></content>"
    "<content type='quoted-literal' mime='application/x.*'><within rule='c'/>"
    "</content></request><response><rule name='url'>"
    "<rewrite from='(?&lt;p2>https?://)(?&lt;h2>[^/ &quot;&apos;&amp;&gt;]+)"
    "(?&lt;path>[^ &quot;&apos;&amp;&gt;]*)' to='${p2}${px}/${h2}${path}'/>"
    "</rule><rule name='css'><rewrite from='red' to='blue'/></rule>"
    "<content type='headers'><within header='location' rule='url'/></content>"
    "<content type='html' mime='text/html.*'>"
    "<within tag='script' attr='#text' type='quoted-literal' rule='url'/>"
    "<within tag='style|em' attr='#text' rule='css'/>"
    "<within attr='href|src' rule='url'/>"
    "<within tag='font' attr='color' rule='css'/>"
    "<within attr='onclick' type='quoted-literal' rule='url'/></content>"
    "<content type='quoted-literal' mime='text/javascript'><within rule='url'/>"
    "</content></response></f>";

struct Piece { const char *in, *out; };
// outside of anything
static const Piece pieces[] = {
    { "http://a/x red 'http://a/y' ", 0 },
    { "<a href=\"http://a/p\">", "<a href=\"http://px/a/p\">" },
    { "<img SRC='https://b/q' alt='http://a/'/>",
      "<img SRC='https://px/b/q' alt='http://a/'/>" },
    { "<!-- <a href=\"http://a/p\"> -->", 0 },
    { "<p onclick=\"go('http://a/1', 'x', red, &quot;http://a/2&quot;)\">",
      "<p onclick=\"go('http://px/a/1', 'x', red, &quot;http://px/a/2&quot;)\">" },
    { "<font color=\"red\" size='red' href='red'>",
      "<font color=\"blue\" size='red' href='red'>" },
    { "<p color=\"red\" href=\"/x http://a http://b/\">",
      "<p color=\"red\" href=\"/x http://px/a http://px/b/\">" },
    { "<a href>&amp;</a>", 0 },
    { "<a href=\"\" src=''>", 0 },
    { "</p>\n", 0 },
};
static const Piece scripts[] = {
    { "var a = \"http://a/x\";\n", "var a = \"http://px/a/x\";\n" },
    { "// 'http://a/x'\n", 0 },
    { "f('x\\'', 'http://a/y');\n", "f('x\\'', 'http://px/a/y');\n" },
    { "a = http; b = '';\n", 0 },
};

static std::string out_of(const Piece &p) { return p.out ? p.out : p.in; }

MC_SCENARIO(hr_page, 0)
{
    zh::quiet();
    std::string out;
    int depth = mc::param("depth", 4);
    std::string page, want;
    const char *tag = 0;
    bool js = mc::choose(2);
    for (int i = 0; i < depth; i++)
    {
        if (js || (tag && !strcmp(tag, "script")))
        {
            int k = mc::choose(5);
            if (k == 4 && js)
                break;
            if (k == 4)
            {
                page += "</script>", want += "</script>";
                tag = 0;
                continue;
            }
            page += scripts[k].in;
            want += out_of(scripts[k]);
        }
        else if (tag)
        {
            int k = mc::choose(tag[0] == 's' ? 2 : 4);
            if (k == 0)
                page += "a red http://a/ ", want += "a blue http://a/ ";
            else if (k == 2)
                page += pieces[1].in, want += out_of(pieces[1]);
            else if (k == 3)
                page += "</b>", want += "</b>";
            else
            {
                std::string e = std::string("</") + tag + ">";
                page += e, want += e;
                tag = 0;
            }
        }
        else
        {
            int k = mc::choose(14);
            if (k < 10)
                page += pieces[k].in, want += out_of(pieces[k]);
            else if (k == 10)
                break;
            else
            {
                tag = k == 11 ? "script" : k == 12 ? "style" : "em";
                std::string e = std::string("<") + tag + ">";
                if (k == 11)
                    page += "<script src='http://a/s'>",
                        want += "<script src='http://px/a/s'>";
                else
                    page += e, want += e;
            }
        }
    }
    mc::note("page %s", page.c_str());
    if (page.empty())
        mc::vacuous();
    {
        mp::RouterChain r;
        yf::HttpRewrite f;
        Web s;
        r.append(f);
        r.append(s);
        zh::configure(f, conf);
        s.ctype = js ? "text/javascript" : "text/html; charset=utf-8";
        s.page = page;
        zh::Client c(r);
        ODR o = odr_createmem(ODR_ENCODE);
        Answer a = ask(c, zh::http_req(o, "http://px/h/y"));
        odr_destroy(o);
        mc::evaluated();
        if (a.body != want)
            mc::fail("page", "%s, expected %s", a.body.c_str(), want.c_str());
        out = a.body;
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// request lines, headers and bodies, and what is kept for the response
MC_SCENARIO(hr_req, 0)
{
    zh::quiet();
    std::string out;
    {
        mp::RouterChain r;
        yf::HttpRewrite f;
        Web s;
        r.append(f);
        r.append(s);
        zh::configure(f, conf);
        zh::Client cs[2] = { zh::Client(r), zh::Client(r, "1.2.3.4 ssl:@:9000") };
        int rounds = mc::param("rounds", 2);
        for (int d = 0; d < rounds; d++)
        {
            static const char *const paths[] = { "http://px/h.org/p?q", "/h.org/p?q",
                "https://p2/h", "http://px", "/", "ftp://px/h/a" };
            int path = mc::choose(6), host = mc::choose(3), ssl = mc::choose(2);
            int body = mc::choose(4);
            static const char *const types[] = { "text/html", "TEXT/HTML;a", "",
                "text/plain", "text/javascript" };
            int type = mc::choose(rounds > 1 && d ? 2 : 5);
            int bin = mc::choose(2);
            int skip = rounds == 1 ? mc::choose(5) : 0;
            zh::Client &c = cs[ssl];
            ODR o = odr_createmem(ODR_ENCODE);
            Z_GDU *g = zh::http_req(o, paths[path], "POST");
            Z_HTTP_Request *h = g->u.HTTP_Request;
            const char *hosts[] = { 0, "px", "PX:80" };
            if (host)
                z_HTTP_header_add(o, &h->headers, "Host", hosts[host]);
            z_HTTP_header_add(o, &h->headers, "Cookie", "a=px; b=px");
            z_HTTP_header_add(o, &h->headers, "Other", "px");
            static const char *const skips[] = { 0, "(", "x (", "( x", "" };
            if (skip)
                z_HTTP_header_add(o, &h->headers, "X-Metaproxy-SkipLink",
                                  skips[skip]);
            std::string b = "\"px\" px 'px";
            if (body == 3)
                b += '\0';
            if (body)
            {
                z_HTTP_header_add(o, &h->headers, "Content-Type", body == 2
                                  ? "text/x" : "application/x-y");
                h->content_buf = odr_strdupn(o, b.data(), b.size());
                h->content_len = b.size();
            }
            s.ctype = types[type];
            s.page = type == 4 ? "'http://a/b'" : "<a href='http://a/b'>";
            std::string page = type == 4 ? "'http://" : "<a href='http://";
            std::string page1 = type == 4 ? "/a/b'" : "/a/b'>";
            s.location = "http://a/c?http";
            if (bin)
                s.page += '\0';
            std::string what = std::string(paths[path]) + " host "
                + (host ? hosts[host] : "none") + (ssl ? " SSL" : "") + " type "
                + s.ctype + (bin ? " binary" : "") + " body "
                + std::to_string(body) + " skip " + (skip ? skips[skip] : "none");
            mc::note("%s", what.c_str());
            Answer a = ask(c, g);
            odr_destroy(o);
            mc::evaluated();
            // the reference
            std::string url = paths[path], px, hn;
            bool abs = path == 0 || path == 2 || path == 3;
            if (!abs && host)
                url = std::string(ssl ? "https://" : "http://") + hosts[host]
                    + paths[path];
            std::string proto = url.substr(0, url.find("://") + 3);
            std::string rest = url.substr(proto.size());
            if ((abs || host) && rest.find('/') != std::string::npos
                && rest.find('/') + 1 < rest.size()
                && rest[rest.find('/') + 1] != '/')
            {
                px = rest.substr(0, rest.find('/'));
                rest = rest.substr(rest.find('/') + 1);
                hn = rest.substr(0, rest.find('/'));
                url = proto + rest;
            }
            else
                url = paths[path];
            if (s.path != url)
                mc::fail("path", "%s: %s, expected %s", what.c_str(), s.path.c_str(),
                         url.c_str());
            if (s.headers.find("Cookie: a=" + hn + "; b=" + hn + "\nOther: px\n")
                == std::string::npos)
                mc::fail("headers", "%s: %s", what.c_str(), s.headers.c_str());
            if (host && s.headers.find(std::string("Host: ") + hosts[host] + "\n")
                == std::string::npos)
                mc::fail("headers", "%s: %s", what.c_str(), s.headers.c_str());
            if (s.headers.find("SkipLink") != std::string::npos)
                mc::fail("skip", "%s: SkipLink header passed on", what.c_str());
            std::string wb = body == 0 ? "" : body == 1 ? "\"" + hn + "\" px 'px" : b;
            if (s.body != wb)
                mc::fail("request body", "%s: %s", what.c_str(), s.body.c_str());
            if (a.headers.find("Location: http://" + px + "/a/c?http\n")
                == std::string::npos)
                mc::fail("location", "%s: %s", what.c_str(), a.headers.c_str());
            std::string want = bin || type == 2 || type == 3 ? s.page
                : page + px + page1;
            if (a.body != want)
                mc::fail("body", "%s: %s, expected %s", what.c_str(), a.body.c_str(),
                         want.c_str());
            out += s.path + a.body;
        }
        for (auto &c : cs)
            c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// configurations are refused when they are read, not when they are used
MC_SCENARIO(hr_conf, 0)
{
    zh::quiet();
    static const char *const tos[] = { "b", "$", "$x", "${x", "${}", "\\", "a\\$b",
        "${x}}" };
    static const bool tobad[] = { false, true, true, true, false, false, false,
        false };
    static const char *const froms[] = { "a", "(", "(?<x>a)", "(?<x", "(?<x-y>a)",
        "(?<>a)", "[a", "a)", "" };
    int to = mc::choose(8), from = mc::choose(9), mime = mc::choose(3);
    int rule = mc::choose(4), type = mc::choose(3);
    static const char *const types[] = { "html", "quoted-literal", "other" };
    static const char *const mimes[] = { "text/html", 0, "(" };
    static const char *const rules[] = { "r", "s", "r,s", "" };
    std::string x = std::string("<f><response><rule name='r'><rewrite from='")
        + xmlesc(froms[from]) + "' to='" + xmlesc(tos[to]) + "'/></rule>"
        "<content type='" + types[type] + "'" + (mimes[mime] ? std::string(" mime='")
        + mimes[mime] + "'" : "") + "><within attr='href' rule='" + rules[rule]
        + "'/></content></response></f>";
    mc::note("%s", x.c_str());
    std::string out;
    {
        mp::RouterChain r;
        yf::HttpRewrite f;
        Web s;
        r.append(f);
        r.append(s);
        std::string err;
        bool ok = zh::configure_ok(f, x, &err);
        bool bad = from == 1 || from == 3 || from == 4 || from == 6 || from == 7
            || (tobad[to] && from < 8) || mime == 2 || rule > 0;
        mc::evaluated();
        if (ok && bad && from != 5)
            mc::fail("accepted", "bad configuration accepted: %s", x.c_str());
        if (!ok && !bad && from != 5)
            mc::fail("refused", "good configuration refused: %s: %s", x.c_str(),
                     err.c_str());
        if (ok)
        {
            s.ctype = "text/html";
            s.page = type == 1 ? "'a'" : "<a href='a'>";
            zh::Client c(r);
            ODR o = odr_createmem(ODR_ENCODE);
            Answer a = ask(c, zh::http_req(o, "/x"));
            odr_destroy(o);
            if ((mime || type == 2 || from > 7) && a.body != s.page)
                mc::fail("changed", "%s: %s", x.c_str(), a.body.c_str());
            out = a.body;
            c.close();
        }
        else
            out = err;
    }
    mc::outcome(out);
    mc::state(out);
}

// simple rewriting
MC_SCENARIO(hr_simple, 0)
{
    zh::quiet();
    std::string out;
    {
        mp::RouterChain r;
        yf::HttpRewrite1 f;
        int reply = mc::choose(4);      // page, none, Z39.50, a page with no type
        std::string page;
        zh::Fn s([&](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g)
                return;
            mp::odr o;
            if (g->which == Z_GDU_Z3950)
                p.response() = o.create_initResponse(g->u.z3950, 0, 0);
            else if (reply == 2)
                p.response() = o.create_close(0, 0, "x");
            else if (reply != 1)
            {
                Z_GDU *r = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 200);
                Z_HTTP_Response *x = r->u.HTTP_Response;
                x->headers = 0;
                if (reply == 0)
                    z_HTTP_header_add(o, &x->headers, "Content-Type", "text/html");
                x->content_buf = odr_strdupn(o, page.data(), page.size());
                x->content_len = (int) page.size();
                p.response() = r;
            }
        });
        r.append(f);
        r.append(s);
        static const char *const pat[] = { "a", "^a", "b(.)", "$" };
        static const char *const rep[] = { "X", "", "[$1]", "$&$&" };
        static const char *const modes[] = { 0, "g", "i", "gi" };
        static const char *const types[] = { "text/html", "text/plain" };
        int n = mc::choose(2) + 1;
        int p[2], q[2], m[2], t[2];
        std::string x = "<f>";
        for (int i = 0; i < n; i++)
        {
            p[i] = mc::choose(3), q[i] = mc::choose(4);
            m[i] = mc::choose(4), t[i] = mc::choose(2);
            x += std::string("<replace pattern='") + pat[p[i]] + "' replacement='"
                + xmlesc(rep[q[i]]) + "' content-type='" + types[t[i]] + "'"
                + (modes[m[i]] ? std::string(" mode='") + modes[m[i]] + "'" : "")
                + "/>";
        }
        x += "</f>";
        static const char *const pages[] = { "abA", "", "bab", "Bb" };
        int k = mc::choose(5);
        page = k == 4 ? std::string("a\0ab", 4) : pages[k];
        mc::note("%s: %s", x.c_str(), page.c_str());
        zh::configure(f, x);
        zh::Client c(r);
        ODR o = odr_createmem(ODR_ENCODE);
        if (c.send(zh::init_req(o)) != "init:ok")
            mc::fail("passed", "Init not passed");
        std::string got, type;
        std::string d = c.send(zh::http_req(o, "/x"), [&](mp::Package &p) {
            Z_GDU *a = p.response().get();
            if (a && a->which == Z_GDU_HTTP_Response)
                got = std::string(a->u.HTTP_Response->content_buf
                                  ? a->u.HTTP_Response->content_buf : "",
                                  a->u.HTTP_Response->content_len);
        });
        odr_destroy(o);
        mc::evaluated();
        if (reply == 1 || reply == 2)
        {
            if (d != (reply == 1 ? "-" : "close:0:x"))
                mc::fail("reply", "%s", d.c_str());
        }
        else
        {
            std::string want = page;
            for (int i = 0; i < n && reply == 0; i++)
                if (t[i] == 0)
                {
                    bool g = modes[m[i]] && strchr(modes[m[i]], 'g');
                    bool ic = modes[m[i]] && strchr(modes[m[i]], 'i');
                    std::regex re(pat[p[i]], ic ? std::regex::ECMAScript
                                  | std::regex::icase : std::regex::ECMAScript);
                    want = std::regex_replace(
                        want, re, rep[q[i]], g ? std::regex_constants::format_default
                        : std::regex_constants::format_first_only);
                }
            if (got != want)
                mc::fail("page", "%s: %s, expected %s", x.c_str(), got.c_str(),
                         want.c_str());
        }
        out = d;
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// requests handled at the same time do not see each other's variables
MC_SCENARIO(hr_mt, 0)
{
    zh::quiet();
    mc::sched_begin();
    {
        mp::RouterChain r;
        yf::HttpRewrite f;
        Web s;
        int same = mc::choose(2);
        s.ctype = "text/html";
        s.page = "<a href='http://a/b'>http</a>";
        s.location = "http://a/c";
        r.append(f);
        r.append(s);
        zh::configure(f, conf);
        zh::Client *c[2] = { new zh::Client(r), new zh::Client(r) };
        std::vector<int> t;
        Answer a[2];
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                zh::Client k = *c[same ? 0 : i];
                ODR o = odr_createmem(ODR_ENCODE);
                a[i] = ask(k, zh::http_req(o, i ? "http://p1/h/x" : "http://p0/h/x"));
                odr_destroy(o);
            }));
        for (int x : t)
            mc::join(x);
        mc::calm(true);
        for (int i = 0; i < 2; i++)
        {
            mc::evaluated();
            std::string p = i ? "p1" : "p0";
            if (a[i].body != "<a href='http://" + p + "/a/b'>http</a>"
                || a[i].headers.find("Location: http://" + p + "/a/c\n")
                == std::string::npos)
                mc::fail("other", "request %d answered with %s %s", i,
                         a[i].headers.c_str(), a[i].body.c_str());
        }
        for (auto x : c)
        {
            x->close();
            delete x;
        }
        mc::calm(false);
    }
    mc::sched_end();
    mc::outcome("ok");
    mc::state("ok");
}
