// URL recipes: ${..} and %{..} expansion against metadata records.
// ONLY: url_recipe xmlutil
#include "mc.hpp"
#include <metaproxy/xmlutil.hpp>
#include <boost/regex.hpp>
#include <string.h>
#include <map>
#include <vector>

namespace mp_xml = metaproxy_1::xml;
typedef std::map<std::string, std::string> Meta;

static std::string enc(const std::string &t)
{
    std::string r;
    for (size_t i = 0; i < t.size(); i++)
    {
        unsigned char c = t[i];
        if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
            || (c >= '0' && c <= '9') || strchr("-_.!~*'()", c))
            r += c;
        else
        {
            char b[4];
            snprintf(b, sizeof b, "%%%02X", c);
            r += b;
        }
    }
    return r;
}

static std::string expand(const Meta &m, std::string var, bool uri,
                          const std::string &pat, const std::string &rep,
                          const std::string &mode)
{
    if (var.empty())
        return "";
    if (var.substr(0, 3) == "md-")
        var = var.substr(3);
    Meta::const_iterator it = m.find(var);
    std::string t = it == m.end() ? "" : it->second;
    if (pat.size())
    {
        bool g = mode.find('g') != std::string::npos;
        boost::regex e(pat, mode.find('i') == std::string::npos
                       ? boost::regex::perl
                       : boost::regex::perl | boost::regex::icase);
        t = boost::regex_replace(t, e, rep, g ? boost::format_all
                                 : boost::format_first_only);
    }
    return uri ? enc(t) : t;
}

// reference: split the recipe into literal text and variables
static std::string reference(const Meta &m, const std::string &r, bool &dbl)
{
    std::string out;
    dbl = r.find("\\\\") != std::string::npos;
    size_t i = 0;
    while (i < r.size())
    {
        if (!((r[i] == '$' || r[i] == '%') && i + 1 < r.size() && r[i + 1] == '{'))
        {
            out += r[i++];
            continue;
        }
        bool uri = r[i] == '%';
        i += 2;
        // up to the closing brace that is not protected by a backslash
        size_t e = i;
        while (e < r.size() && !(r[e] == '}' && !(e > i && r[e - 1] == '\\')))
            e++;
        std::string body = r.substr(i, e - i);
        i = e < r.size() ? e + 1 : e;
        std::string f[4];
        int k = 0;
        for (size_t j = 0; j < body.size() && k < 4; j++)
        {
            bool esc = j > 0 && body[j - 1] == '\\';
            char c = body[j];
            if (!esc && k == 0 && c == '[')
                k = 1;
            else if (!esc && k > 0 && c == ']')
                k = 4;
            else if (!esc && (k == 1 || k == 2) && c == '/')
                k++;
            else
                f[k] += c;
        }
        out += expand(m, f[0], uri, f[1], f[2], f[3]);
    }
    return out;
}

static xmlDoc *mkdoc(const Meta &m, int style)
{
    std::string x = style & 1 ? "<?xml version='1.0'?>\n<!-- c -->\n<r>\n" : "<r>";
    for (Meta::const_iterator it = m.begin(); it != m.end(); it++)
    {
        std::string t;
        for (size_t i = 0; i < it->second.size(); i++)
            t += style & 4 && i == 1 ? std::string("<!-- c --><b>no</b>") +
                (it->second[i] == '&' ? "&amp;" : it->second[i] == '<' ? "&lt;"
                 : std::string(1, it->second[i]))
                : it->second[i] == '&' ? std::string("&amp;")
                : it->second[i] == '<' ? std::string("&lt;")
                : std::string(1, it->second[i]);
        if (style & 4)      // the last one counts; others are no metadata
            x += "<metadata type='" + it->first + "'>old</metadata><metadata/>"
                "<metadata name='" + it->first
                + "'>no</metadata><metadat type='" + it->first
                + "'>no</metadat>text<x><metadata type='" + it->first
                + "'>no</metadata></x>";
        x += "<metadata " + std::string(style & 2 ? "rank='1' " : "") + "type='"
            + it->first + "'>" + t + "</metadata>";
        if (style & 4)
            x += "<metadatax type='" + it->first + "'>no</metadatax>";
        if (style & 1)
            x += "\n<other type='" + it->first + "'>no</other>\n";
    }
    x += "</r>";
    return xmlParseMemory(x.c_str(), x.size());
}

static void one(xmlDoc *doc, const Meta &m, const std::string &r)
{
    bool dbl, t1 = false, t2 = false;
    std::string e, g;
    try { e = reference(m, r, dbl); }
    catch (boost::regex_error &) { t1 = true; }
    if (dbl)
        return;
    mc::evaluated();
    try { g = mp_xml::url_recipe_handle(doc, r); }
    catch (boost::regex_error &) { t2 = true; }
    if (t1 != t2 || g != e)
        mc::fail("recipe", "recipe [%s] gives [%s]%s, expected [%s]%s", r.c_str(),
                 g.c_str(), t2 ? " (exception)" : "", e.c_str(),
                 t1 ? " (exception)" : "");
}

MC_SCENARIO(recipe_chars, 0)
{
    static const char al[] = "$%{}[]/\\amd-gi";
    int A = sizeof al - 1, len = mc::param("len", 6), pre = 3;
    Meta m;
    m["a"] = "aAaa";
    m["m"] = "M & m";
    m["d"] = "d/d";
    m["ma"] = "ma";
    m["-"] = "dash";
    m["i"] = "%i";
    xmlDoc *doc = mkdoc(m, 0);
    std::string s;
    int l = mc::choose(len + 1), i = 0;
    // half of the space starts inside a variable
    if (mc::choose(2))
        s = "${";
    for (; i < l && i < pre; i++)
        s += al[mc::choose(A)];
    int rest = l - i;
    long total = 1;
    for (int k = 0; k < rest; k++)
        total *= A;
    mc::state(s + "*" + std::to_string(rest));
    for (long v = 0; v < total; v++)
    {
        std::string t = s;
        long w = v;
        for (int k = 0; k < rest; k++, w /= A)
            t += al[w % A];
        one(doc, m, t);
    }
    bool d;
    try { mc::outcome(reference(m, s, d)); } catch (...) { mc::outcome("exception"); }
    xmlFreeDoc(doc);
}

// recipes built from pieces: expected value known by construction
MC_SCENARIO(recipe_pieces, 0)
{
    static const char *names[] = { "a", "md-a", "date", "md-date", "medium",
        "m", "d", "-", "title", "md-title", "md-md-x", "md-", "x", "none",
        "md-none", "author-title", "md" };
    static const char *values[][2] = {
        { "a", "a b a B" }, { "date", "2024/01" }, { "medium", "book" },
        { "m", "one" }, { "d", "two" }, { "-", "three" },
        { "title", "How <to> & \xc3\xa9?" }, { "md-x", "mdx" }, { "e", "bad" },
        { "ium", "bad" }, { "author-title", "a+t" }, { "md", "emdee" } };
    struct { const char *pat, *rep, *mode; } pats[] = {
        { 0, 0, 0 }, { "a", 0, 0 }, { "a", "X", 0 }, { "a", "X", "g" },
        { "b", "<$&>", "i" }, { "B", "y", "ig" }, { "o", "", "g" },
        { "\\/", "-", 0 }, { "[0-9]+", "N", "g" }, { "(a) (b)", "$2 $1", 0 },
        { "", "z", "g" }, { "\\s+", "+", "g" }, { "\\]", "q", 0 } };
    static const char *lits[] = { "", "http://h/?q=", "$", "%", "%20", "{", "}",
        "$$", "a/b[c]" };
    Meta m;
    int drop = mc::choose(13, mc::FAULT) - 1;
    for (int i = 0; i < 12; i++)
        if (i != drop)
            m[values[i][0]] = values[i][1];
    xmlDoc *doc = mkdoc(m, mc::choose(8, mc::FAULT));
    std::string r, e;
    int n = mc::param("vars", 2);
    for (int k = 0; k < n; k++)
    {
        std::string l = lits[mc::choose(9, k ? mc::FAULT : mc::FREE)];
        r += l;
        e += l;
        bool uri = mc::choose(2);
        std::string nm = names[mc::choose(17, k ? mc::FAULT : mc::FREE)];
        int p = mc::choose(13, k ? mc::FAULT : mc::FREE);
        if (p == 8)     // a ] inside the pattern has to be protected
            p = 0;
        r += (uri ? "%{" : "${") + nm;
        if (pats[p].pat)
        {
            r += std::string("[") + pats[p].pat;
            if (pats[p].rep)
                r += std::string("/") + pats[p].rep;
            if (pats[p].mode)
                r += std::string("/") + pats[p].mode;
            r += "]";
        }
        r += "}";
        e += expand(m, nm, uri, pats[p].pat ? pats[p].pat : "",
                    pats[p].rep ? pats[p].rep : "",
                    pats[p].mode ? pats[p].mode : "");
    }
    std::string g;
    try { g = mp_xml::url_recipe_handle(doc, r); }
    catch (std::exception &x) { g = x.what(); }
    if (g != e)
        mc::fail("recipe", "recipe [%s] gives [%s], expected [%s]", r.c_str(),
                 g.c_str(), e.c_str());
    mc::evaluated();
    mc::state(r);
    mc::outcome(e);
    xmlFreeDoc(doc);
}

// long values, no values, no document
MC_SCENARIO(recipe_sizes, 0)
{
    static const char *unit[] = { "a", "\xc3\xa9", " ", "a/b", "$1", "${a}", "%" };
    static const int reps[] = { 0, 1, 2, 100, 4096, 70000 };
    static const char *docs[] = { "<r/>", "<!-- c --><?pi?><r/>",
        "<r>text</r>", "<metadata type='v'>no</metadata>" };
    std::string u = unit[mc::choose(7)], v, pre, post;
    int n = reps[mc::choose(6)], kind = mc::choose(6), vars = 1 + mc::choose(3);
    for (int i = 0; i < n; i++)
        v += u;
    Meta m;
    xmlDoc *doc = 0;
    if (kind == 0)
    {
        if (v.size())
            m["v"] = v;
        doc = mkdoc(m, 0);
    }
    else if (kind < 5)
        doc = xmlParseMemory(docs[kind - 1], strlen(docs[kind - 1]));
    std::string t = m["v"], r, e;
    for (int k = 0; k < vars; k++)
    {
        static const char *var[] = { "${v}", "%{md-v}", "${v[a/b/g]}" };
        r += "-" + u + var[k];
        std::string x = t;
        if (k == 1)
            x = enc(t);
        if (k == 2)
            for (auto &c : x)
                if (c == 'a')
                    c = 'b';
        if (u == "${a}")
            e += "-" + x;
        else
            e += "-" + u + x;
    }
    std::string g = mp_xml::url_recipe_handle(doc, r);
    if (g != e)
        mc::fail("recipe", "recipe [%s] with %d x [%s] (document %d) gives %zu "
                 "characters [%.80s], expected %zu [%.80s]", r.c_str(), n,
                 u.c_str(), kind, g.size(), g.c_str(), e.size(), e.c_str());
    if (mp_xml::url_recipe_handle(doc, "") != "")
        mc::fail("recipe", "the empty recipe gives something");
    mc::evaluated(2);
    mc::state(r + std::to_string(n) + std::to_string(kind));
    mc::outcome(std::to_string(kind) + std::to_string(g.size()));
    if (doc)
        xmlFreeDoc(doc);
}
