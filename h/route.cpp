// Routing: packages visit exactly the filters their route(s) prescribe, and
// ONLY: session package origin router_chain router_flexml filter factory_filter xmlutil util
// configurations are accepted exactly when they are consistent.
#include "mc.hpp"
#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include <metaproxy/router_chain.hpp>
#include <metaproxy/package.hpp>
#include <metaproxy/util.hpp>
#include <vector>
#include <map>
#include <set>
#include <string.h>
#include <stdio.h>

namespace mp = metaproxy_1;

struct Act { int op; std::string route; };   // see enum
enum { PASS, STOP, MOVE, BRANCH, TWICE, MOVE_THEN_PASS, BRANCH_MOVE, NACT };

static std::vector<std::string> LOG;
static std::map<std::string, Act> PROG;
static int g_seq, g_test_only, g_conf;
static std::map<std::string, int> started, stopped;
static int stop_sig;
static const char *g_path;
static std::map<int, std::string> session_log;

class Rec : public mp::filter::Base {
public:
    std::string name;
    int inst;
    mutable int calls;
    static int counter;
    Rec() : inst(counter++), calls(0) {}
    void configure(const xmlNode *n, bool test_only, const char *path)
    {
        g_conf++;
        if (std::string(path ? path : "(none)") != (g_path ? g_path : "(none)"))
            mc::fail("include-path", "configure() got path %s",
                     path ? path : "(none)");
        if ((int) test_only != g_test_only)
            mc::fail("test-only-flag", "configure() got test_only=%d", test_only);
        for (n = n->children; n; n = n->next)
            if (n->type == XML_ELEMENT_NODE && !strcmp((const char *) n->name, "n"))
                name = mp::xml::get_text(n);
            else if (n->type == XML_ELEMENT_NODE
                     && !strcmp((const char *) n->name, "bad"))
                throw mp::filter::FilterException("Bad element bad");
    }
    void start() const { started[name]++; }
    void stop(int s) const { stopped[name]++; stop_sig = s; }
    void process(mp::Package &p) const
    {
        char b[60];
        calls++;
        snprintf(b, sizeof b, "%s#%d@%lu", name.c_str(), calls,
                 p.session().id());
        LOG.push_back(b);
        if (LOG.size() > 400)
            mc::fail("harness:runaway", "route does not end");
        std::map<std::string, Act>::iterator it = PROG.find(name);
        Act a;
        a.op = PASS;
        if (it != PROG.end() && calls % 3 == 1)     // now and then
            a = it->second;
        switch (a.op)
        {
        case PASS:
            p.move();
            break;
        case STOP:
            break;
        case MOVE:
            p.move(a.route);
            break;
        case BRANCH:
        {
            mp::Session s;
            mp::Package q(s, p.origin());
            q.copy_filter(p);
            q.move();
            LOG.push_back("/");
            p.move();
            break;
        }
        case BRANCH_MOVE:
        {
            mp::Session s;
            mp::Package q(s, p.origin());
            q.copy_route(p);
            q.move(a.route);
            LOG.push_back("/");
            p.move();
            break;
        }
        case TWICE:
            p.move();
            LOG.push_back("+");
            p.move();
            break;
        case MOVE_THEN_PASS:
            p.move(a.route);
            LOG.push_back("+");
            p.move();
            break;
        }
        LOG.push_back("<" + name);
    }
};
int Rec::counter;

static mp::filter::Base *mk_rec() { return new Rec; }

// -------------------------------------------------------------- the model
struct Model {
    std::map<std::string, std::vector<std::string> > routes;
    std::map<std::string, int> calls;
    std::vector<std::string> log;
    unsigned long next_session;
    int steps;
    bool overflow;
    struct Pos { std::string r; size_t i; };
    void go(Pos &p, const std::string &route, unsigned long ses)
    {
        if (route.length())
        {
            if (!routes.count(route))
                return;             // nothing processed, position kept
            p.r = route;
            p.i = 0;
        }
        std::vector<std::string> &l = routes[p.r];
        if (p.i >= l.size())
            return;
        std::string n = l[p.i++];
        if (++steps > 40)
        {
            overflow = true;
            return;
        }
        char b[60];
        snprintf(b, sizeof b, "%s#%d@%lu", n.c_str(), ++calls[n], ses);
        log.push_back(b);
        Act a;
        a.op = PASS;
        if (PROG.count(n) && calls[n] % 3 == 1)
            a = PROG[n];
        switch (a.op)
        {
        case PASS: go(p, "", ses); break;
        case STOP: break;
        case MOVE: go(p, a.route, ses); break;
        case BRANCH:
        case BRANCH_MOVE:
        {
            Pos q = p;
            unsigned long s = ++next_session;
            go(q, a.op == BRANCH ? "" : a.route, s);
            log.push_back("/");
            go(p, "", ses);
            break;
        }
        case TWICE:
            go(p, "", ses);
            log.push_back("+");
            go(p, "", ses);
            break;
        case MOVE_THEN_PASS:
            go(p, a.route, ses);
            log.push_back("+");
            go(p, "", ses);
            break;
        }
        log.push_back("<" + n);
    }
};

static std::string join(const std::vector<std::string> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); i++)
        s += (i ? " " : "") + v[i];
    return s;
}

static void choose_act(const std::string &n, const std::vector<std::string> &targets)
{
    // one unit of the fault budget per filter that does not simply pass on
    std::vector<Act> all;
    for (int k = 0; k < NACT; k++)
    {
        Act x;
        x.op = k;
        if (k == MOVE || k == MOVE_THEN_PASS || k == BRANCH_MOVE)
            for (size_t i = 0; i < targets.size(); i++)
            {
                x.route = targets[i];
                all.push_back(x);
            }
        else
            all.push_back(x);
    }
    Act a = all[mc::choose((int) all.size(), mc::FAULT)];
    PROG[n] = a;
}

static void drive(mp::Router &router, Model &m, const std::string &start,
                  const char *what)
{
    LOG.clear();
    mp::Session s0;
    mp::Origin o;
    int packs = 2;      // two packages one after the other: nothing carries over
    m.overflow = false;
    std::vector<std::string> exp;
    m.next_session = s0.id();
    m.steps = 0;
    for (int k = 0; k < packs; k++)
    {
        Model::Pos p;
        p.r = start;
        p.i = 0;
        m.go(p, "", s0.id());
        m.log.push_back("|");
    }
    if (m.overflow)
    {
        mc::vacuous();
        return;
    }
    for (int k = 0; k < packs; k++)
    {
        mp::Package p(s0, o);
        p.router(router);
        p.move();
        LOG.push_back("|");
    }
    std::string g = join(LOG), e = join(m.log);
    if (g != e)
        mc::fail("route-order", "%s: visited [%s], expected [%s]", what,
                 g.c_str(), e.c_str());
    mc::evaluated();
    mc::state(e);
    std::string shape;
    for (size_t i = 0; i < e.size(); i++)
        if (!(e[i] >= '0' && e[i] <= '9'))
            shape += e[i];
    mc::outcome(shape);
}

static std::string ns = "http://indexdata.com/metaproxy";

// FleXML: every assignment of behaviours to the filters of up to 3 routes
MC_SCENARIO(flex_walk, 0)
{
    g_path = 0;
    PROG.clear();
    started.clear();
    stopped.clear();
    g_test_only = 0;
    Model m;
    int n0 = mc::choose(mc::param("len0", 3)), n1 = mc::choose(mc::param("len1", 3));
    int n2 = mc::choose(2);
    std::vector<std::string> tg;
    tg.push_back("r1");
    tg.push_back("nosuch");
    tg.push_back("");
    tg.push_back("s");
    if (n2)
        tg.push_back("r2");
    std::string x = "<metaproxy xmlns='" + ns + "'><start route='s'/><filters>"
        "<filter id='sh' type='rec'><n>sh</n></filter></filters><routes>";
    int share = mc::choose(2);
    std::map<std::string, int> len;
    len["s"] = n0;
    len["r1"] = n1;
    len["r2"] = n2;
    const char *names[3] = { "s", "r1", "r2" };
    // document order of the routes must not matter
    int rot = mc::choose(3);
    for (int k = 0; k < 3; k++)
    {
        std::string r = names[(k + rot) % 3];
        x += "<route id='" + r + "'>";
        int nest = r == "r1" ? 1 : 0;
        if (nest)
            x += "<filters>";
        m.routes[r];
        for (int i = 0; i < len[r]; i++)
        {
            std::string f = r + char('a' + i);
            x += "<filter type='rec'><n>" + f + "</n></filter>";
            m.routes[r].push_back(f);
            choose_act(f, tg);
        }
        if (nest)
            x += "</filters>";
        if (share && r != "s")
        {
            x += "<filter refid='sh'/>";
            m.routes[r].push_back("sh");
        }
        x += "</route>";
    }
    x += "</routes></metaproxy>";
    mp::FactoryFilter ff;
    ff.add_creator("rec", mk_rec);
    mp::RouterFleXML router(x, ff, false);
    drive(router, m, "s", x.c_str());
    router.start();
    router.stop(15);
    std::map<std::string, std::vector<std::string> >::iterator it;
    for (it = m.routes.begin(); it != m.routes.end(); it++)
        for (size_t i = 0; i < it->second.size(); i++)
        {
            if (!started[it->second[i]])
                mc::fail("not-started", "filter %s never started",
                         it->second[i].c_str());
            if (!stopped[it->second[i]] || stop_sig != 15)
                mc::fail("not-stopped", "filter %s never stopped",
                         it->second[i].c_str());
        }
}

// chain router
MC_SCENARIO(chain_walk, 0)
{
    PROG.clear();
    started.clear();
    stopped.clear();
    Model m;
    int n = mc::choose(mc::param("len", 4) + 1);
    std::vector<Rec> fs(n);
    mp::RouterChain router;
    m.routes["s"];
    int rep = n > 1 ? mc::choose(2) : 0;    // first filter occurs twice
    std::vector<std::string> tg;
    tg.push_back("");
    for (int i = 0; i < n; i++)
    {
        fs[i].name = std::string(1, char('a' + i));
        m.routes["s"].push_back(fs[i].name);
        choose_act(fs[i].name, tg);
        router.append(fs[i]);
    }
    if (rep)
    {
        router.append(fs[0]);
        m.routes["s"].push_back(fs[0].name);
    }
    drive(router, m, "s", "chain");
    router.start();
    router.stop(10);
    for (int i = 0; i < n; i++)
        if (!started[fs[i].name] || !stopped[fs[i].name])
            mc::fail("not-started", "filter %s not started/stopped",
                     fs[i].name.c_str());
}

// several packages at different positions of the same router, interleaved
MC_SCENARIO(pos_interleave, 0)
{
    g_path = 0;
    PROG.clear();
    int n = 4, depth = mc::param("depth", 4);
    std::vector<Rec> fs(n);
    mp::RouterChain chain;
    for (int i = 0; i < n; i++)
    {
        fs[i].name = std::string(1, char('a' + i));
        chain.append(fs[i]);
    }
    std::string x = "<metaproxy xmlns='" + ns + "'><start route='s'/><routes>";
    x += "<route id='s'>";
    for (int i = 0; i < n; i++)
        x += std::string("<filter type='rec'><n>") + char('a' + i) + "</n></filter>";
    x += "</route><route id='t'><filter type='rec'><n>t</n></filter>"
        "<filter type='rec'><n>T</n></filter></route>"
        "<route id='u'/></routes></metaproxy>";
    mp::FactoryFilter ff;
    ff.add_creator("rec", mk_rec);
    g_test_only = 0;
    mp::RouterFleXML flex(x, ff, false);
    int kind = mc::choose(2);
    mp::Router &router = kind ? (mp::Router &) flex : (mp::Router &) chain;
    mp::RoutePos *pos[3] = { router.createpos(), 0, 0 };
    struct { int r; int i; } m[3] = { { 0, 0 }, { 0, 0 }, { 0, 0 } };
    std::string tr;
    std::string st;
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(kind ? 7 : 3);
        int a = mc::choose(3);
        if (!pos[a])
            a = 0;
        if (op == 0)    // clone a into the next slot
        {
            int b = (a + 1) % 3;
            mp::RoutePos *c = pos[a]->clone();
            delete pos[b];
            pos[b] = c;
            m[b] = m[a];
            tr += " clone";
            continue;
        }
        const char *rt = op == 1 ? 0 : op == 2 ? "" : op == 3 ? "t"
            : op == 4 ? "u" : op == 5 ? "nosuch" : "s";
        const mp::filter::Base *f = pos[a]->move(rt);
        std::string got = f ? ((const Rec *) f)->name : "-", exp = "-";
        if (op == 3 && kind)
            m[a].r = 1, m[a].i = 0;
        if (op == 6)
            m[a].r = 0, m[a].i = 0;
        if (op == 4 && kind)
            m[a].r = 2, m[a].i = 0;
        if (op != 5)
        {
            int len = m[a].r == 0 ? n : m[a].r == 1 ? 2 : 0;
            if (m[a].i < len)
            {
                exp = m[a].r == 0 ? std::string(1, char('a' + m[a].i))
                    : m[a].i ? "T" : "t";
                m[a].i++;
            }
        }
        tr += " p" + std::to_string(a) + ".move(" + (rt ? rt : "0") + ")=" + got;
        if (got != exp)
            mc::fail("route-order", "%s router:%s, expected %s",
                     kind ? "xml" : "chain", tr.c_str(), exp.c_str());
        mc::evaluated();
        st.clear();
        for (int k = 0; k < 3; k++)
            st += std::to_string(m[k].r) + std::to_string(m[k].i) + (pos[k] ? "." : "-");
        mc::state(std::to_string(kind) + st);
    }
    mc::outcome(std::to_string(kind) + st);
    for (int k = 0; k < 3; k++)
        delete pos[k];
}

// packages of several threads on one router
MC_SCENARIO(pos_mt, 1)
{
    PROG.clear();
    int nt = mc::param("threads", 2), depth = mc::param("depth", 3);
    std::string x = "<metaproxy xmlns='" + ns + "'><start route='s'/><routes>"
        "<route id='s'><filter type='rec'><n>a</n></filter><filter type='rec'>"
        "<n>b</n></filter></route><route id='t'><filter type='rec'><n>t</n>"
        "</filter><filter type='rec'><n>T</n></filter></route></routes>"
        "</metaproxy>";
    static const char *names[2][2] = { { "a", "b" }, { "t", "T" } };
    mp::FactoryFilter ff;
    ff.add_creator("rec", mk_rec);
    g_test_only = 0;
    g_path = 0;
    mp::RouterFleXML flex(x, ff, false);
    mp::RouterChain chain;
    std::vector<Rec> fs(2);
    for (int i = 0; i < 2; i++)
    {
        fs[i].name = names[0][i];
        chain.append(fs[i]);
    }
    int kind = mc::choose(2);
    mp::Router &router = kind ? (mp::Router &) flex : (mp::Router &) chain;
    std::vector<std::vector<int> > prog(nt);
    std::string tr;
    for (int i = 0; i < nt; i++)
        for (int d = 0; d < depth; d++)
        {
            prog[i].push_back(mc::choose(kind ? 5 : 2));
            tr += char('0' + prog[i].back());
        }
    std::vector<std::string> got(nt);
    mc::sched_begin();
    std::vector<int> th;
    for (int i = 0; i < nt; i++)
        th.push_back(mc::spawn([&, i]() {
            mp::RoutePos *pos = router.createpos();
            int r = 0, k = 0;
            for (size_t d = 0; d < prog[i].size(); d++)
            {
                mc::point("op");
                static const char *rt[] = { 0, 0, "t", "nosuch", "s" };
                int op = prog[i][d];
                if (op == 1)
                {
                    mp::RoutePos *c = pos->clone();
                    delete pos;
                    pos = c;
                    continue;
                }
                const mp::filter::Base *f = pos->move(rt[op]);
                if (op == 2 || op == 4)
                {
                    r = op == 2;
                    k = 0;
                }
                std::string e = op == 3 || k > 1 ? "-" : names[r][k++];
                std::string g = f ? ((const Rec *) f)->name : "-";
                if (g != e)
                    mc::fail("route-order", "thread %d of programs %s moved to "
                             "%s, expected %s", i, tr.c_str(), g.c_str(),
                             e.c_str());
                got[i] += g;
            }
            delete pos;
        }));
    for (int i = 0; i < nt; i++)
        mc::join(th[i]);
    mc::sched_end();
    std::string o = std::to_string(kind);
    for (int i = 0; i < nt; i++)
        o += " " + got[i];
    mc::evaluated();
    mc::outcome(o);
    mc::state(o + tr);
}

// ------------------------------------------------------------ configuration
MC_SCENARIO(flex_config, 0)
{
    g_test_only = mc::choose(2);
    g_conf = 0;
    g_path = 0;
    PROG.clear();
    std::string err;        // first reason why the configuration is invalid
#define BAD(w) do { if (err.empty()) err = w; } while (0)
    int nconf = 0;
    Model m;
    std::set<std::string> ids, rids;
    // the part that deviates from a plain valid configuration; at most
    // `fault` deviations per configuration
    int root = mc::choose(4, mc::FAULT);
    std::string x;
    std::string rootname = root == 2 ? "metaprox" : "metaproxy";
    x += "<" + rootname + (root == 1 ? " xmlns='http://other/'" : root == 3 ?
         "" : " xmlns='" + ns + "'") + ">";
    if (root)
        BAD("root");
    if (mc::choose(2, mc::FAULT))
        x += "<dlpath>/nonexistent</dlpath>";
    std::string start = "start";
    switch (mc::choose(10, mc::FAULT))
    {
    case 0: x += "<start route='start'/>"; break;
    case 1: x += "<start/>"; break;
    case 2: x += "<start route='zz'/>"; start = "zz"; break;
    case 3: x += "<start route='start' foo='1'/>"; BAD("start attr"); break;
    case 4: BAD("no start"); break;
    case 5: x += "<start route='two'/>"; start = "two"; break;
    case 6: x += "<start route='start'/><start route='start'/>";
        BAD("two starts"); break;
    case 7: x += "<start xmlns='http://other/' route='start'/>";
        BAD("no start"); break;
    case 8: x += "<start route=''/>"; start = ""; break;
    case 9: x += "<start route='start'/><dlpath>/nonexistent</dlpath>";
        BAD("late dlpath"); break;
    }
    std::vector<std::string> need_routes;
    int nf = mc::choose(3);
    if (nf || mc::choose(2))
    {
        x += "<filters>";
        for (int i = 0; i < nf; i++)
        {
            std::string id(1, char('A' + i)), n = "f" + id, type = "rec", extra,
                body;
            switch (mc::choose(14, mc::FAULT))
            {
            case 8: body = "<target route='start'/><target route='zz'/>";
                need_routes.push_back("zz"); break;
            case 9: body = "<target a='1' route='zz'/><target route='start'/>";
                need_routes.push_back("zz"); break;
            case 10: body = "<target b='start' route='two' c='zz'/>";
                need_routes.push_back("two"); break;
            case 11: extra = " xmlns='http://other/'";
                BAD("filter namespace"); break;
            case 12: body = "<target route=''/>";
                need_routes.push_back(""); break;
            case 13: x += "<filter type='rec' id='x" + id + "'/>"; nconf++;
                break;
            case 1:
                if (i)
                    id = "A";
                break;
            case 2: type = "nosuchtype"; BAD("type"); break;
            case 3: extra = " foo='1'"; BAD("filter attr"); break;
            case 4: body = "<target route='two'/>";
                need_routes.push_back("two"); break;
            case 5: body = "<target route='zz'/>";
                need_routes.push_back("zz"); break;
            case 6: body = "<bad/>"; BAD("filter config"); break;
            case 7: x += "<foo/>"; BAD("element in filters"); break;
            }
            if (!ids.insert(id).second)
                BAD("dup filter id");
            x += "<filter id='" + id + "' type='" + type + "'" + extra + "><n>" +
                n + "</n>" + body + "</filter>";
            nconf++;
        }
        x += "</filters>";
        switch (mc::choose(3, mc::FAULT))
        {
        case 1: x += "<filters/>"; BAD("two filters"); break;
        case 2: x += "<foo/>"; BAD("element in root"); break;
        }
    }
    int mode = mc::choose(3, mc::FAULT);
    if (mode == 1)
        BAD("no routes");
    else
    {
        x += "<routes>";
        int nr = mc::choose(2) + 1;
        if (mode == 2)
        {
            nr = 0;
            BAD("empty routes");
        }
        for (int r = 0; r < nr; r++)
        {
            std::string rid = r ? "two" : "start", extra;
            int dev = mc::choose(6, mc::FAULT);
            if (dev == 4)
            {
                x += "<foo/>";
                BAD("element in routes");
            }
            if (dev == 5)
            {
                extra = " xmlns='http://other/'";
                BAD("route namespace");
            }
            if (dev == 1)
                rid = "start";
            if (dev == 2)
            {
                extra = " bar='1'";
                BAD("route attr");
            }
            if (dev == 3)
                rid = "other";
            std::vector<std::string> l;
            x += "<route id='" + rid + "'" + extra + ">";
            int k = mc::choose(3);
            for (int i = 0; i < k; i++)
            {
                std::string n = rid + char('0' + r) + char('a' + i);
                std::string typed = "<filter type='rec'><n>" + n + "</n></filter>";
                switch (mc::choose(14, mc::FAULT))
                {
                case 10: x += "<filter type='rec'><n>" + n + "</n><a route='"
                    "start'/><target x='1' route='zz'/></filter>";
                    need_routes.push_back("zz"); l.push_back(n); nconf++; break;
                case 11: x += "<filters><filters><filter refid='A'/>" + typed +
                    "</filters><filter type='rec'><n>" + n + "x</n><t route='two"
                    "'/></filter></filters>";
                    if (!ids.count("A"))
                        BAD("refid");
                    l.push_back("fA"); l.push_back(n); l.push_back(n + "x");
                    need_routes.push_back("two"); nconf += 2; break;
                case 12: x += "<filter xmlns='http://other/' type='rec'><n>" + n
                    + "</n></filter>"; BAD("filter namespace"); break;
                case 13: x += "<filters><foo/></filters>";
                    BAD("element in route"); break;
                case 0: x += typed; l.push_back(n); nconf++; break;
                case 1:
                    x += "<filter refid='A'/>";
                    if (!ids.count("A"))
                        BAD("refid");
                    else
                        l.push_back("fA");
                    break;
                case 2: x += "<filter refid='Z'/>"; BAD("refid"); break;
                case 3: x += "<filters>" + typed + "</filters>";
                    l.push_back(n); nconf++; break;
                case 4: x += "<filter type='nosuchtype'/>"; BAD("type"); break;
                case 5: x += "<foo/>"; BAD("element in route"); break;
                case 6: x += "<filter type='rec' id='q'/>"; BAD("filter attr");
                    break;
                case 7: x += "<filters><filter type='rec'><n>" + n +
                    "</n><target route='zz'/></filter></filters>";
                    need_routes.push_back("zz"); l.push_back(n); nconf++; break;
                case 8: x += "<filter type='rec'><n>" + n +
                    "</n><target route='two'/></filter>";
                    need_routes.push_back("two"); l.push_back(n); nconf++; break;
                case 9: x += "<filter type='rec'><n>" + n +
                    "</n><bad/></filter>"; BAD("filter config"); break;
                }
            }
            x += "</route>";
            if (!rids.insert(rid).second)
                BAD("dup route");
            else
                m.routes[rid] = l;
        }
        switch (mc::choose(3, mc::FAULT))
        {
        case 1: x += "<foo/>"; BAD("element in routes"); break;
        case 2: x += "<foo><filter/></foo>"; BAD("element in routes"); break;
        }
        x += "</routes>";
        switch (mc::choose(4, mc::FAULT))
        {
        case 1: x += "<extra/>"; BAD("extra element"); break;
        case 2: x += "<routes><route id='three'/></routes>";
            BAD("extra element"); break;
        case 3: x += "<filters/>"; BAD("extra element"); break;
        }
    }
    x += "</" + rootname + ">";
    if (mc::choose(2, mc::FAULT))   // comments and white space everywhere
    {
        std::string y = "<!-- <foo/> -->\n";
        for (size_t i = 0; i < x.size(); i++)
        {
            y += x[i];
            if (x[i] == '>' && i + 1 < x.size() && x[i + 1] == '<')
                y += "\n <!-- <bad route='q'/> -->\n <?pi x?> ";
        }
        x = y;
    }
    for (size_t i = 0; i < need_routes.size(); i++)
        if (!rids.count(need_routes[i]))
            BAD("route of filter");
    if (!rids.count(start))
        BAD("start route");
    mp::FactoryFilter ff;
    ff.add_creator("rec", mk_rec);
    std::string got;
    mp::RouterFleXML *router = 0;
    try
    {
        int from = mc::choose(3, mc::FAULT);
        if (from)       // the document is read by the caller
        {
            g_path = from == 2 ? "/nonexistent" : 0;
            xmlDoc *doc = xmlParseMemory(x.c_str(), x.size());
            try
            {
                router = new mp::RouterFleXML(doc, ff, g_test_only, g_path);
            }
            catch (...)
            {
                xmlFreeDoc(doc);
                throw;
            }
            xmlFreeDoc(doc);
        }
        else
            router = new mp::RouterFleXML(x, ff, g_test_only);
    }
    catch (std::exception &e)
    {
        got = e.what();
        if (got.empty())
            got = "exception";
    }
    mc::evaluated();
    mc::outcome(err.empty() ? "accepted" : "rejected: " + err);
    mc::state(x);
    if (err.size() && got.empty())
        mc::fail("config-accepted:" + err, "inconsistent configuration "
                 "accepted (%s): %s", err.c_str(), x.c_str());
    if (err.empty() && got.size())
        mc::fail("config-rejected", "consistent configuration rejected "
                 "(%s): %s", got.c_str(), x.c_str());
    if (router)
    {
        if (g_conf != nconf)
            mc::fail("config-calls", "%d filters configured, %d expected: %s",
                     g_conf, nconf, x.c_str());
        if (!g_test_only)
            drive(*router, m, start, x.c_str());
        delete router;
    }
}
