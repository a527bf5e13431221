// Filter factory, XML configuration helpers, client origin.
// ONLY: factory_filter filter xmlutil origin util package session router_chain
#include "mc.hpp"
#include "factory_filter.hpp"
#include <metaproxy/filter.hpp>
#include <metaproxy/xmlutil.hpp>
#include <metaproxy/origin.hpp>
#include <metaproxy/util.hpp>
#include <sstream>
#include <map>
#include <vector>
#include <string.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

namespace mp = metaproxy_1;
namespace mx = metaproxy_1::xml;

// ------------------------------------------------------------------ factory
struct F : public mp::filter::Base {
    int who;
    F(int w) : who(w) {}
    void process(mp::Package &) const {}
    void configure(const xmlNode *, bool, const char *) {}
};
static mp::filter::Base *mk0() { return new F(0); }
static mp::filter::Base *mk1() { return new F(1); }
static mp::filter::Base *mkd() { return new F(2); }
extern "C" {
    // found by add_creator_dl() in the executable itself
    struct metaproxy_1_filter_struct metaproxy_1_filter_dyn = { 0, "dyn", mkd };
}

// modules to load: one good, one without a filter, one that is no library
extern "C" mp::filter::Base *verif_mkplug() { return new F(3); }
static std::string modules()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    std::string d(b, n > 0 ? n : 0);
    d = d.substr(0, d.rfind('/')) + "/scratch-factory";
    std::string ok = d + "/done";
    struct stat st;
    if (stat(ok.c_str(), &st) == 0)
        return d;
    mkdir(d.c_str(), 0777);
    std::string t = d + "/t" + std::to_string(getpid());
    auto mk = [&](const char *name, const char *text) {
        FILE *o = fopen((t + ".c").c_str(), "w");
        if (o)
        {
            fputs(text, o);
            fclose(o);
        }
        std::string c = "gcc -shared -fPIC -o " + t + ".so " + t + ".c";
        if (!o || system(c.c_str()))
            mc::fail("harness:module", "cannot make %s", name);
        rename((t + ".so").c_str(), (d + "/metaproxy_filter_" + name + ".so").c_str());
        unlink((t + ".c").c_str());
    };
    mk("plug", "extern void *verif_mkplug(void); struct { int v; const char *t; "
       "void *(*c)(void); } metaproxy_1_filter_plug = { 0, \"plug\", verif_mkplug };");
    mk("nosym", "int nothing;");
    FILE *o = fopen((d + "/metaproxy_filter_garbage.so").c_str(), "w");
    fputs("no library", o);
    fclose(o);
    o = fopen(ok.c_str(), "w");
    fclose(o);
    return d;
}

MC_SCENARIO(factory_load, 0)
{
    static const char *nm[] = { "plug", "nosym", "garbage", "missing" };
    static std::string dir = modules();
    int depth = mc::param("depth", 4);
    mp::FactoryFilter ff;
    std::map<std::string, int> m;
    std::string tr, st;
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(4);
        std::string n = nm[mc::choose(4)];
        bool got = false, exp = m.count(n) > 0;
        tr += " " + std::to_string(op) + ":" + n;
        switch (op)
        {
        case 0:
            got = ff.add_creator_dl(n, dir);
            if (!exp && n == "plug")
            {
                m[n] = 3;
                exp = true;
            }
            break;
        case 1:
            got = ff.add_creator(n, mk1);
            exp = m.insert(std::make_pair(n, 1)).second;
            break;
        case 2:
            got = ff.drop_creator(n);
            m.erase(n);
            break;
        case 3:
            try
            {
                mp::filter::Base *b = ff.create(n);
                got = true;
                if (!b || (exp && ((F *) b)->who != m[n]))
                    mc::fail("factory", "create gave another filter than the "
                             "one registered:%s", tr.c_str());
                delete b;
            }
            catch (mp::FactoryFilter::NotFound &)
            {
            }
            break;
        }
        if (got != exp)
            mc::fail("factory", "operation answers %d, expected %d:%s", got, exp,
                     tr.c_str());
        st.clear();
        for (int k = 0; k < 4; k++)
        {
            if (ff.exist(nm[k]) != (m.count(nm[k]) > 0))
                mc::fail("factory", "exist(%s) wrong after%s", nm[k], tr.c_str());
            st += m.count(nm[k]) ? char('0' + m[nm[k]]) : '-';
        }
        mc::evaluated();
        mc::state(st);
        mc::outcome(std::to_string(op) + std::to_string(got) + st);
    }
}

MC_SCENARIO(factory_ops, 0)
{
    static const char *nm[] = { "a", "ab", "dyn", "" };
    int depth = mc::param("depth", 5);
    mp::FactoryFilter ff, other;        // factories do not share anything
    std::map<std::string, int> m;
    std::string tr;
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(6);
        std::string n = nm[mc::choose(4)];
        bool got = false, exp = false;
        tr += " " + std::to_string(op) + ":" + n;
        switch (op)
        {
        case 0:
        case 1:
            got = ff.add_creator(n, op ? mk1 : mk0);
            exp = m.insert(std::make_pair(n, op)).second;
            break;
        case 2:
            got = ff.drop_creator(n);
            exp = m.erase(n) == 1;
            break;
        case 3:
            got = ff.exist(n);
            exp = m.count(n);
            break;
        case 4:
            exp = m.count(n);
            try
            {
                mp::filter::Base *b = ff.create(n);
                got = true;
                if (!b)
                    mc::fail("factory", "create returned nothing:%s", tr.c_str());
                if (exp && ((F *) b)->who != m[n])
                    mc::fail("factory", "create gave a filter of type %d, "
                             "registered is %d:%s", ((F *) b)->who, m[n],
                             tr.c_str());
                mp::filter::Base *c = ff.create(n);
                if (b == c)
                    mc::fail("factory", "two filters are one object:%s",
                             tr.c_str());
                delete b;
                delete c;
            }
            catch (mp::FactoryFilter::NotFound &)
            {
                got = false;
            }
            break;
        case 5:
            // loads from the executable; existing names stay as they are
            got = ff.add_creator_dl(n, "/nonexistent");
            exp = m.count(n);
            if (!exp && n == "dyn")
            {
                m[n] = 2;
                exp = true;
            }
            break;
        }
        if (got != exp)
            mc::fail("factory", "operation answers %d, expected %d:%s", got, exp,
                     tr.c_str());
        mc::evaluated();
        std::string st;
        for (int k = 0; k < 4; k++)
        {
            if (ff.exist(nm[k]) != (m.count(nm[k]) > 0))
                mc::fail("factory", "exist(%s) wrong after%s", nm[k], tr.c_str());
            if (other.exist(nm[k]))
                mc::fail("factory", "another factory changed");
            st += m.count(nm[k]) ? char('0' + m[nm[k]]) : '-';
        }
        mc::state(st);
        mc::outcome(std::to_string(op) + std::to_string(got) + st);
    }
}

// ------------------------------------------------------------------- origin
MC_SCENARIO(origin_ops, 0)
{
    static const char *peers[] = { "1.2.3.4", "::1", "tcp:10.0.0.1", "unix" };
    static const char *binds[] = { "@:9000", "tcp:*:210", "x" };
    static const char *fwd[] = { "6.6.6.6", "6.6.6.6, 7.7.7.7", "a b c", "",
        " ", "P B", "9.9.9.9 ", " 9.9.9.9", "P B 6.6.6.6 x", "6.6.6.6 x P B",
        "P", "B", "6.6.6.6 x P B 6.6.6.6", "a,b,c", "6.6.6.6\t7.7.7.7", "P  B" };
    static const unsigned long ids[] = { 0, 1, 77, 4294967295UL };
    mp::Origin o;
    std::string peer = peers[mc::choose(4)], bind = binds[mc::choose(3)];
    // nothing set yet
    if (o.get_address() != "" || o.get_bind_address() != "" || o.get_max_sockets())
        mc::fail("origin", "a new origin is not empty");
    std::ostringstream os0;
    os0 << o;
    if (os0.str() != "0:0")
        mc::fail("origin", "a new origin prints as %s", os0.str().c_str());
    unsigned long id = ids[mc::choose(4)];
    o.set_tcpip_address(peer + " " + bind, id);
    int n = mc::choose(mc::param("fwd", 3) + 1), more = 0;
    if (n > 1)
        more = mc::choose(2, mc::FAULT);
    std::vector<std::string> fs;
    std::string full = peer, cs;
    int ms = 0;
    for (int i = 0; i <= n + more * 40; i++)
    {
        if (i > n)
        {
            // many more of the same, the last ones long
            std::string f = fs[i % n];
            if (i > n + 30)
                f += std::string(300 * (i - n - 30), '7');
            o.set_tcpip_address(f, id);
            full = f + " " + full;
        }
        else if (i)
        {
            std::string f;
            for (const char *q = fwd[mc::choose(i == 1 ? 16 : 11)]; *q; q++)
                f += *q == 'P' ? peer : *q == 'B' ? bind : std::string(1, *q);
            fs.push_back(f);
            id = ids[mc::choose(4, mc::FAULT)];
            o.set_tcpip_address(f, id);
            full = f + " " + full;
        }
        if (i <= n && mc::choose(2, mc::FAULT))
        {
            cs = "sess";
            o.set_custom_session(cs);
        }
        if (i <= n && mc::choose(2, mc::FAULT))
            o.set_max_sockets(ms = 5);
        mp::Origin c = o;
        for (int k = 0; k < 2; k++)
        {
            mp::Origin &x = k ? c : o;
            if (x.get_address() != peer)
                mc::fail("peer-address", "client address reported as [%s], "
                         "connection came from [%s] (forwarded [%s])",
                         x.get_address().c_str(), peer.c_str(), full.c_str());
            if (x.get_bind_address() != bind)
                mc::fail("bind-address", "listener reported as [%s], is [%s]",
                         x.get_bind_address().c_str(), bind.c_str());
            if (x.get_max_sockets() != ms)
                mc::fail("origin", "max sockets %d", x.get_max_sockets());
            std::ostringstream os;
            os << x;
            std::string e = full.substr(0, full.find(' '));
            e = (e.size() ? e : "0") + ":" + std::to_string(id);
            if (cs.size())
                e += ":" + cs;
            if (os.str() != e)
                mc::fail("origin-print", "origin prints as [%s], expected [%s]",
                         os.str().c_str(), e.c_str());
            mc::evaluated();
            mc::outcome(e);
        }
        mc::state(peer + bind + full + cs + std::to_string(id));
    }
}

// ------------------------------------------------------------------ xmlutil
static const char *MPNS = "http://indexdata.com/metaproxy";

struct Doc {
    xmlDoc *d;
    Doc(const std::string &s) { d = xmlParseMemory(s.c_str(), s.size()); }
    ~Doc() { xmlFreeDoc(d); }
    const xmlNode *root() { return xmlDocGetRootElement(d); }
};

// text, booleans and integers
MC_SCENARIO(xml_values, 0)
{
    static const char *tx[] = { "", "true", "false", "1", "0", "yes", "TRUE",
        "42", "-7", " 12", "12abc", "abc", "true ", "+5", "2147483647", "tru",
        "11", "truex", "01" };
    std::string t = tx[mc::choose(19)];
    int shape = mc::choose(6);
    std::string x, text = t;
    if (shape == 3 && t.empty())
    {
        mc::vacuous();
        return;
    }
    bool first_is_text = t.size() > 0;
    switch (shape)
    {
    case 0: x = "<a>" + t + "</a>"; break;
    case 1: x = "<a>" + t + "<!-- c -->"  "tail</a>"; text += "tail"; break;
    case 2: x = "<a>" + t + "<b>in</b>" "z</a>"; text += "z"; break;
    case 3: x = "<a v='" + t + "'/>"; break;
    case 4: x = "<a><b/>" + t + "</a>"; first_is_text = false; break;
    case 5: x = "<a><?pi?>" + t + "<!--c-->" + t + "</a>"; text = t + t;
        first_is_text = false; break;
    }
    Doc doc(x);
    const xmlNode *n = doc.root();
    std::string g;
    if (shape == 3)
    {
        const _xmlAttr *a = n->properties;
        g = mx::get_text(a);
        n = a->children;        // as the filters do for attribute values
        if (n)
        {
            std::string g2 = mx::get_text(n);
            if (g2 != g)
                mc::fail("get-text", "%s: [%s] vs [%s]", x.c_str(), g.c_str(),
                         g2.c_str());
        }
    }
    else
        g = mx::get_text(n);
    if (g != text)
        mc::fail("get-text", "%s: text [%s], expected [%s]", x.c_str(), g.c_str(),
                 text.c_str());
    if (mx::get_text((const xmlNode *) 0) != "")
        mc::fail("get-text", "text of nothing");
    for (int def = 0; def < 2; def++)
    {
        // decided by the first piece of text; anything else is the default
        if (shape == 4 || shape == 5)
            break;
        bool e = def;
        if (shape == 1 && !t.size())
            continue;
        if (first_is_text)
            e = t == "true" || t == "1";
        bool b = mx::get_bool(n, def);
        if (b != e)
            mc::fail("get-bool", "%s default %d: %d, expected %d", x.c_str(), def,
                     b, e);
        int idef = def ? -3 : 9, ie = idef;
        if (first_is_text)
            ie = atoi(t.c_str());
        int i = mx::get_int(n, idef);
        if (i != ie)
            mc::fail("get-int", "%s default %d: %d, expected %d", x.c_str(), idef,
                     i, ie);
        mc::evaluated(2);
    }
    if (mx::get_bool(0, true) != true || mx::get_bool(0, false) != false
        || mx::get_int(0, 5) != 5)
        mc::fail("get-default", "value of nothing is not the default");
    mc::state(x);
    mc::outcome(g);
}

// names, namespaces, attributes, navigation
MC_SCENARIO(xml_structure, 0)
{
    static const char *en[] = { "metaproxy", "metaprox", "metaproxyx", "b" };
    static const char *nss[] = { MPNS, "", "http://other/",
        "http://indexdata.com/metaprox" };
    int e = mc::choose(4), ns = mc::choose(4);
    int pref = mc::choose(2);
    std::string name = en[e], decl;
    if (nss[ns][0])
        decl = std::string(pref ? " xmlns:p='" : " xmlns='") + nss[ns] + "'";
    std::string q = nss[ns][0] && pref ? "p:" + name : name;
    std::string x = "<" + q + decl;
    // attributes
    struct { const char *n, *v; } at[] = { { "route", "r" }, { "auth", "u" },
        { "type", "t" }, { "rout", "z" }, { "route", "" } };
    int mask = mc::choose(32);
    if ((mask & 1) && (mask & 16))
        mask &= ~16;
    std::vector<int> as;
    bool rev = mc::choose(2);
    for (int k = 0; k < 5; k++)
    {
        int i = rev ? 4 - k : k;
        if (mask & (1 << i))
        {
            as.push_back(i);
            x += std::string(" ") + at[i].n + "='" + at[i].v + "'";
        }
    }
    x += ">";
    int nch = mc::choose(4);
    std::vector<int> types;
    for (int i = 0; i < nch; i++)
    {
        int t = mc::choose(4);
        // libxml2 joins adjacent text
        if (t == 0 && types.size() && types.back() == XML_TEXT_NODE)
            t = 1;
        x += t == 0 ? "txt" : t == 1 ? "<c/>" : t == 2 ? "<!--c-->" : "<?pi?>";
        types.push_back(t == 0 ? XML_TEXT_NODE : t == 1 ? XML_ELEMENT_NODE
                        : t == 2 ? XML_COMMENT_NODE : XML_PI_NODE);
    }
    x += "</" + q + ">";
    Doc doc(x);
    const xmlNode *n = doc.root();
    if (!n)
        mc::fail("harness:xml", "no document: %s", x.c_str());
    // names
    for (int k = 0; k < 4; k++)
    {
        bool exp = k == e && ns == 0;
        if (mx::is_element_mp(n, en[k]) != exp)
            mc::fail("is-element", "is_element_mp(%s) on %s", en[k], x.c_str());
        bool thrown = false;
        try { mx::check_element_mp(n, en[k]); }
        catch (mp::XMLError &) { thrown = true; }
        if (thrown == exp)
            mc::fail("check-element", "check_element_mp(%s) on %s", en[k],
                     x.c_str());
        for (int j = 0; j < 4; j++)
            if (nss[j][0])
            {
                bool g = mx::is_element(n, nss[j], en[k]);
                if (g != (k == e && j == ns))
                    mc::fail("is-element", "is_element(%s,%s) on %s", nss[j],
                             en[k], x.c_str());
            }
        mc::evaluated(3);
    }
    if (mx::is_element_mp(0, "metaproxy"))
        mc::fail("is-element", "no element is an element");
    for (const xmlNode *c = n->children; c; c = c->next)
        if (c->type != XML_ELEMENT_NODE && mx::is_element_mp(c, "c"))
            mc::fail("is-element", "text is an element");
    // attributes: known ones are delivered, others are refused
    {
        std::string r, au;
        bool bad = mask & (4 | 8), thrown = false;
        try { r = mx::get_route(n, au); }
        catch (mp::XMLError &) { thrown = true; }
        if (thrown != bad)
            mc::fail("attributes", "%s: %s", x.c_str(), thrown ? "refused"
                     : "unsupported attribute accepted");
        if (!thrown && (r != (mask & 1 ? "r" : "") || au != (mask & 2 ? "u" : "")))
            mc::fail("attributes", "%s: route [%s] auth [%s]", x.c_str(),
                     r.c_str(), au.c_str());
        bad = mask & (2 | 4 | 8);
        thrown = false;
        try { r = mx::get_route(n); }
        catch (mp::XMLError &) { thrown = true; }
        if (thrown != bad || (!thrown && r != (mask & 1 ? "r" : "")))
            mc::fail("attributes", "%s: get_route [%s]", x.c_str(), r.c_str());
        const char *names[] = { "type", "rout", "route", "auth", 0 };
        std::string v[5];
        for (int i = 0; i < 5; i++)
            v[i] = "old";
        mx::parse_attr(n, names, v);
        if (v[0] != (mask & 4 ? "t" : "") || v[1] != (mask & 8 ? "z" : "")
            || v[2] != (mask & 1 ? "r" : "") || v[3] != (mask & 2 ? "u" : "")
            || v[4] != "old")
            mc::fail("attributes", "%s: parse_attr [%s|%s|%s|%s]", x.c_str(),
                     v[0].c_str(), v[1].c_str(), v[2].c_str(), v[3].c_str());
        mx::parse_attr(0, names, v);
        if (v[0].size() || v[3].size())
            mc::fail("attributes", "values of no element");
        size_t k = 0;
        for (const _xmlAttr *a = n->properties; a; a = a->next, k++)
        {
            if (!mx::is_attribute(a, "", at[as[k]].n)
                || mx::is_attribute(a, "", "nope")
                || mx::is_attribute(a, MPNS, at[as[k]].n))
                mc::fail("is-attribute", "%s", x.c_str());
            bool t2 = false;
            try { mx::check_attribute(a, "", at[as[k]].n); }
            catch (mp::XMLError &) { t2 = true; }
            if (t2)
                mc::fail("check-attribute", "%s", x.c_str());
            try { mx::check_attribute(a, "", "nope"); }
            catch (mp::XMLError &) { t2 = true; }
            if (!t2)
                mc::fail("check-attribute", "%s", x.c_str());
        }
        mc::evaluated(4);
    }
    // attributes with a namespace, and values with entities
    if (mask & 1)
    {
        std::string y = "<e xmlns:q='http://other/' q:route='1&amp;2&lt;3' type='"
            "t&#33;'/>";
        Doc d2(y);
        const _xmlAttr *a = d2.root()->properties;
        if (!mx::is_attribute(a, "http://other/", "route")
            || !mx::is_attribute(a, "", "route")
            || mx::is_attribute(a, "http://other", "route")
            || mx::is_attribute(a, "http://other/x", "route")
            || mx::is_attribute(a, MPNS, "route")
            || mx::is_attribute(a, "http://other/", "type")
            || mx::is_attribute(a->next, "http://other/", "type")
            || !mx::is_attribute(a->next, "", "type"))
            mc::fail("is-attribute", "%s", y.c_str());
        for (int k = 0; k < 2; k++)
        {
            bool t2 = false;
            try { mx::check_attribute(a, k ? MPNS : "http://other/", "route"); }
            catch (mp::XMLError &) { t2 = true; }
            if (t2 != (k == 1))
                mc::fail("check-attribute", "%s", y.c_str());
        }
        const char *names[] = { "type", "route", 0 };
        std::string v[2];
        mx::parse_attr(d2.root(), names, v);
        if (v[0] != "t!" || v[1] != "1&2<3" || mx::get_text(a) != "1&2<3")
            mc::fail("attributes", "%s: [%s] [%s]", y.c_str(), v[0].c_str(),
                     v[1].c_str());
        mc::evaluated(10);
    }
    // navigation
    static const int tys[] = { XML_ELEMENT_NODE, XML_TEXT_NODE, XML_COMMENT_NODE };
    for (int k = 0; k < 3; k++)
    {
        std::vector<const xmlNode *> c;
        for (const xmlNode *p = n->children; p; p = p->next)
            c.push_back(p);
        const xmlNode *exp = 0;
        for (size_t i = 0; i < c.size() && !exp; i++)
            if (c[i]->type == tys[k])
                exp = c[i];
        if (mx::jump_to_children(n, tys[k]) != exp)
            mc::fail("navigation", "first child of type %d: %s", tys[k], x.c_str());
        for (size_t i = 0; i < c.size(); i++)
        {
            const xmlNode *at_or = 0, *after = 0;
            for (size_t j = i; j < c.size() && !at_or; j++)
                if (c[j]->type == tys[k])
                    at_or = c[j];
            for (size_t j = i + 1; j < c.size() && !after; j++)
                if (c[j]->type == tys[k])
                    after = c[j];
            if (mx::jump_to(c[i], tys[k]) != at_or
                || mx::jump_to_next(c[i], tys[k]) != after)
                mc::fail("navigation", "from child %zu, type %d: %s", i, tys[k],
                         x.c_str());
        }
        if (mx::jump_to(0, tys[k]))
            mc::fail("navigation", "something after nothing");
        mc::evaluated();
    }
    {
        bool has = false, thrown = false;
        for (size_t i = 0; i < types.size(); i++)
            has = has || types[i] == XML_ELEMENT_NODE;
        try { mx::check_empty(n); }
        catch (mp::XMLError &) { thrown = true; }
        if (thrown != has)
            mc::fail("check-empty", "%s", x.c_str());
        mx::check_empty(0);
    }
    mc::state(x);
    mc::outcome(x.substr(0, 40));
}
