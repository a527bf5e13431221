// Authentication and authorisation.
// ONLY: filter_auth_simple package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_auth_simple.hpp"
#include <unistd.h>

static std::string file(const std::string &text)
{
    char n[] = "/tmp/mcauthXXXXXX";
    int fd = mkstemp(n);
    if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t) text.size())
        mc::fail("harness:file", "cannot write %s", n);
    ::close(fd);
    return n;
}

// configuration with registers of the given content ("-": none)
static std::string config(yf::AuthSimple &f, const std::string &users,
                          const std::string &targets, bool discard)
{
    std::string u, t, err;
    std::string x = "<f>";
    if (users != "-")
        x += "<userRegister>" + (u = file(users)) + "</userRegister>";
    if (targets != "-")
        x += "<targetRegister>" + (t = file(targets)) + "</targetRegister>";
    if (discard)
        x += "<discardUnauthorisedTargets/>";
    bool ok = zh::configure_ok(f, x + "</f>", &err);
    if (u.size())
        unlink(u.c_str());
    if (t.size())
        unlink(t.c_str());
    return ok ? "" : err.size() ? err : "?";
}

struct User { std::string pw; std::set<std::string> dbs, targets; };

static std::string lower(std::string s)
{
    for (auto &c : s)
        if (c >= 'A' && c <= 'Z')
            c += 32;
    return s;
}
static bool allowed(const std::set<std::string> &s, const std::string &x)
{
    return s.count("*") || s.count(lower(x));
}

static const char *const users =
    "# users\n\nalice:pw1:Db1,db2\nbob::*\n#carol:y:*\ncarol:x:\n";
static const char *const targets =
    "# targets\nalice:h1,H2/x\n\nbob:*\ncarol:\ndave:h1\n";
static std::map<std::string, User> reg()
{
    std::map<std::string, User> m;
    m["alice"] = { "pw1", { "db1", "db2" }, { "h1", "h2/x" } };
    m["bob"] = { "", { "*" }, { "*" } };
    m["carol"] = { "x", { "" }, { "" } };
    m["dave"] = { "", { }, { "h1" } };
    return m;
}

static Z_APDU *init(ODR o, int form, const std::string &u, const std::string &p,
                    const std::vector<std::string> &h)
{
    Z_APDU *a = zh::init_req(o, "i");
    Z_InitRequest *r = a->u.initRequest;
    if (form)
    {
        Z_IdAuthentication *x = (Z_IdAuthentication *) odr_malloc(o, sizeof *x);
        if (form == 1)
        {
            x->which = Z_IdAuthentication_open;
            x->u.open = odr_strdup(o, (p.size() ? u + "/" + p : u).c_str());
        }
        else if (form == 2)
        {
            x->which = Z_IdAuthentication_idPass;
            x->u.idPass = (Z_IdPass *) odr_malloc(o, sizeof *x->u.idPass);
            x->u.idPass->groupId = 0;
            x->u.idPass->userId = u.size() ? odr_strdup(o, u.c_str()) : 0;
            x->u.idPass->password = p.size() ? odr_strdup(o, p.c_str()) : 0;
        }
        else
        {
            x->which = Z_IdAuthentication_anonymous;
            x->u.anonymous = odr_nullval();
        }
        r->idAuthentication = x;
    }
    mp::util::set_vhost_otherinfo(&r->otherInfo, o,
                                  std::list<std::string>(h.begin(), h.end()));
    return a;
}

static std::string join(const std::vector<std::string> &v)
{
    std::string s;
    for (auto &x : v)
        s += (s.size() ? "," : "") + x;
    return s;
}

struct Srv : public zh::Fn {
    int n;
    bool yield;
    std::string got, hosts;
    Srv() : n(0), yield(false)
    {
        f = [this](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g)
                return;
            if (yield)
                mc::point("server");
            mc::NoRace nr;
            n++;
            got = zh::desc(g);
            if (g->which != Z_GDU_Z3950)
                return;
            mp::odr o;
            Z_APDU *a = g->u.z3950;
            switch (a->which)
            {
            case Z_APDU_initRequest:
            {
                std::list<std::string> l;
                mp::util::get_vhost_otherinfo(a->u.initRequest->otherInfo, l);
                hosts = join(std::vector<std::string>(l.begin(), l.end()));
                p.response() = o.create_initResponse(a, 0, 0);
                break;
            }
            case Z_APDU_searchRequest:
                p.response() = o.create_searchResponse(a, 0, 0);
                break;
            case Z_APDU_scanRequest:
                p.response() = o.create_scanResponse(a, 0, 0);
                break;
            case Z_APDU_presentRequest:
                p.response() = o.create_presentResponse(a, 0, 0);
                break;
            default:
                p.response() = o.create_close(a, Z_Close_finished, 0);
            }
        };
    }
};

static const char *const usernames[] = { "alice", "bob", "carol", "dave", "Alice",
                                         "eve", "", "alic", "#carol" };
static const char *const passwords[] = { "pw1", "", "x", "PW1", "pw1 ", "y" };

// Init with every combination of credentials and targets
MC_SCENARIO(au_init, 0)
{
    zh::quiet();
    bool cu = mc::choose(2), ct = !cu || mc::choose(2);
    bool discard = ct && mc::choose(2);
    std::string out;
    {
        mp::RouterChain r;
        yf::AuthSimple f;
        Srv s;
        r.append(f);
        r.append(s);
        std::string err = config(f, cu ? users : "-", ct ? targets : "-", discard);
        if (err.size())
            mc::fail("config", "registers refused: %s", err.c_str());
        std::map<std::string, User> m = reg();
        for (int round = 0; round < mc::param("rounds", 1); round++)
        {
            zh::Client c(r);
            int form = mc::choose(4);
            std::string u, p;
            if (form == 1 || form == 2)
            {
                u = usernames[mc::choose(sizeof(usernames) / sizeof(*usernames))];
                p = passwords[mc::choose(sizeof(passwords) / sizeof(*passwords))];
            }
            static const char *const ts[][3] = {
                { 0, 0, 0 }, { "h1", 0, 0 }, { "H1", "h2/x", 0 }, { "h2", 0, 0 },
                { "h1", "h3", "h2/X" }, { "h3", "h1", 0 }, { "*", 0, 0 } };
            const char *const *t = ts[mc::choose(7)];
            std::vector<std::string> h = zh::v(t[0], t[1], t[2]);
            ODR o = odr_createmem(ODR_ENCODE);
            int n = s.n;
            std::string a = c.send(init(o, form, u, p, h));
            odr_destroy(o);
            mc::evaluated();
            bool ok = true;
            if (cu)
                ok = u.size() && u != "dave" && m.count(u) && m[u].pw == p;
            std::vector<std::string> want;
            if (ct)
            {
                for (auto &x : h)
                    if (m.count(u) && allowed(m[u].targets, x))
                        want.push_back(x);
                    else if (!discard)
                        ok = false;
                if (want.empty())
                    ok = false;
            }
            else
                want = h;
            std::string what = std::string("Init form ") + std::to_string(form)
                + " user '" + u + "' password '" + p + "' targets " + join(h);
            if (ok)
            {
                if (s.n != n + 1 || a != "init:ok#i")
                    mc::fail("refused", "%s answered with %s", what.c_str(),
                             a.c_str());
                if (s.hosts != join(want))
                    mc::fail("targets", "%s: passed on with targets %s",
                             what.c_str(), s.hosts.c_str());
            }
            else
            {
                if (s.n != n)
                    mc::fail("admitted", "%s passed on", what.c_str());
                if (a.compare(0, 9, "init:fail") || !c.closed
                    || a.find("#i") == std::string::npos)
                    mc::fail("answer", "%s refused with %s", what.c_str(),
                             a.c_str());
            }
            out += ok ? "y" : "n";
            c.close();
        }
    }
    mc::outcome(out);
    mc::state(out);
}

static const char *const dbs[][3] = {
    { "db1", 0, 0 }, { "DB2", 0, 0 }, { "db3", 0, 0 }, { "db1", "db3", 0 },
    { "db2", "Db1", 0 }, { "db", 0, 0 }, { "db1,db2", 0, 0 }, { "*", 0, 0 } };

// requests of admitted sessions, one after another
MC_SCENARIO(au_seq, 0)
{
    zh::quiet();
    int depth = mc::param("depth", 4);
    std::string out;
    {
        mp::RouterChain r;
        yf::AuthSimple f;
        Srv s;
        r.append(f);
        r.append(s);
        config(f, users, "-", false);
        std::map<std::string, User> m = reg();
        static const char *const names[] = { "alice", "bob", "carol" };
        std::vector<zh::Client *> c;
        std::vector<std::string> who;
        auto start = [&](const std::string &u) {
            ODR o = odr_createmem(ODR_ENCODE);
            c.push_back(new zh::Client(r));
            who.push_back(u);
            std::string a = c.back()->send(init(o, 2, u, m[u].pw, zh::v(0)));
            if (a != "init:ok#i")
                mc::fail("refused", "Init of %s answered with %s", u.c_str(),
                         a.c_str());
            odr_destroy(o);
        };
        start("alice");
        start("bob");
        for (int d = 0; d < depth; d++)
        {
            int op = mc::choose(4 + (c.size() < 3));
            if (op == 4)
            {
                start(names[mc::choose(3)]);
                out += who.back()[0];
                continue;
            }
            int i = mc::choose(c.size());
            if (c[i]->closed)
                break;
            ODR o = odr_createmem(ODR_ENCODE);
            std::vector<std::string> db;
            Z_APDU *a = 0;
            bool ok = true;
            if (op < 2)
            {
                const char *const *t = dbs[mc::choose(8)];
                db = zh::v(t[0], t[1], t[2]);
                for (auto &x : db)
                    ok = ok && allowed(m[who[i]].dbs, x);
                if (op == 0)
                    a = zh::search_req(o, "a", "1", db, true, "r");
                else
                {
                    a = zh::scan_req(o, "", "a", 1, 1, "r");
                    zh::set_dbs(o, &a->u.scanRequest->num_databaseNames,
                                &a->u.scanRequest->databaseNames, db);
                }
            }
            else if (op == 2)
                a = zh::present_req(o, "1", 1, 1, 0, 0, "r");
            else
            {
                c[i]->close();
                c[i]->closed = true;
                odr_destroy(o);
                out += "x";
                continue;
            }
            Z_GDU g;
            g.which = Z_GDU_Z3950;
            g.u.z3950 = a;
            std::string sent = zh::desc(&g);
            int n = s.n;
            std::string res = c[i]->send(a);
            odr_destroy(o);
            mc::evaluated();
            bool passed = s.n == n + 1;
            if (ok && (!passed || s.got != sent || c[i]->closed))
                mc::fail("denied", "%s of %s denied: %s", sent.c_str(),
                         who[i].c_str(), res.c_str());
            if (!ok && passed)
                mc::fail("allowed", "%s of %s passed on", sent.c_str(),
                         who[i].c_str());
            if (!ok && (!c[i]->closed || res.find("d:236:") == std::string::npos
                        || res.find("#r") == std::string::npos))
                mc::fail("answer", "%s of %s denied with %s", sent.c_str(),
                         who[i].c_str(), res.c_str());
            out += ok ? "y" : "n";
        }
        for (auto x : c)
        {
            x->close();
            delete x;
        }
    }
    mc::outcome(out);
    mc::state(out);
}

// the text of a register
MC_SCENARIO(au_reg, 0)
{
    zh::quiet();
    std::string longs = "b:q:" + std::string(1200, 'd') + ",z";
    const char *const lines[] = { "", "# a:p:*", "a:p:d", "a:p2:*", "b", "b:q",
                                  "b:q:z", ":n:*", "a:p:d:e", longs.c_str() };
    std::string text;
    std::map<std::string, User> m;
    bool bad = false, target = mc::choose(2);
    int n = mc::choose(mc::param("lines", 3) + 1);
    bool nl = mc::choose(2);
    for (int i = 0; i < n; i++)
    {
        std::string l = lines[mc::choose(10)];
        text += l;
        if (i + 1 < n || nl)
            text += "\n";
        if (l.empty() || l[0] == '#')
            continue;
        size_t p = l.find(':');
        size_t q = p == std::string::npos ? p : target ? p : l.find(':', p + 1);
        if (q == std::string::npos)
        {
            bad = true;
            break;
        }
        User u;
        if (!target)
            u.pw = l.substr(p + 1, q - p - 1);
        std::string rest = l.substr(q + 1);
        for (size_t k; (k = rest.find(',')) != std::string::npos; )
        {
            u.dbs.insert(rest.substr(0, k));
            rest = rest.substr(k + 1);
        }
        u.dbs.insert(rest);
        m[l.substr(0, p)] = u;
    }
    std::string out;
    {
        mp::RouterChain r;
        yf::AuthSimple f;
        Srv s;
        r.append(f);
        r.append(s);
        std::string err = config(f, target ? "-" : text, target ? text : "-", false);
        mc::evaluated();
        if (bad != (err.size() > 0))
            mc::fail("register", "register %s: %s", text.substr(0, 60).c_str(),
                     bad ? "accepted" : err.c_str());
        out = bad ? "bad" : "";
        static const char *const us[] = { "a", "b", "", "#", "# a" };
        static const char *const ps[] = { "p", "p2", "q", "n" };
        static const char *const ds[] = { "d", "z", "e", "d:e", "p:d", "q:z", "" };
        for (auto u : us)
            for (auto p : ps)
                for (auto d : ds)
                {
                    if (bad)
                        continue;
                    zh::Client c(r);
                    ODR o = odr_createmem(ODR_ENCODE);
                    int k = s.n;
                    c.send(init(o, 2, u, p, target ? zh::v(d) : zh::v(0)));
                    bool in = s.n > k;
                    k = s.n;
                    if (in && !target)
                    {
                        c.send(zh::search_req(o, "a", "1", zh::v(d)));
                        in = s.n > k;
                    }
                    odr_destroy(o);
                    bool ok = m.count(u) && (target || (m[u].pw == p && *u))
                        && (m[u].dbs.count("*") || m[u].dbs.count(d));
                    if (in != ok)
                        mc::fail("entry", "user '%s' password '%s' database '%s' %s "
                                 "by register %s", u, p, d, in ? "admitted"
                                 : "refused", text.substr(0, 60).c_str());
                    c.close();
                }
    }
    mc::outcome(out);
    mc::state(out);
}

// sessions at the same time
MC_SCENARIO(au_mt, 0)
{
    zh::quiet();
    mc::sched_begin();
    std::string out;
    bool ct = mc::choose(2);
    int mode = mc::choose(3);
    {
        mp::RouterChain r;
        yf::AuthSimple f;
        Srv s;
        r.append(f);
        r.append(s);
        config(f, ct ? "-" : users, ct ? targets : "-", false);
        std::map<std::string, User> m = reg();
        s.yield = true;
        std::string res[2];
        zh::Client *c[2] = { new zh::Client(r), new zh::Client(r) };
        static const char *const who[][2] = {
            { "alice", "bob" }, { "alice", "eve" }, { "eve", "alic" } };
        std::vector<int> t;
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                ODR o = odr_createmem(ODR_ENCODE);
                std::string u = who[mode][i];
                res[i] = c[i]->send(init(o, 2, u, u == "alice" ? "pw1" : "",
                                         zh::v("h1")));
                if (!c[i]->closed)
                    res[i] += c[i]->send(zh::search_req(o, "a", "1", zh::v("db3"),
                                                        true, "r"));
                c[i]->close();
                odr_destroy(o);
            }));
        for (int x : t)
            mc::join(x);
        mc::evaluated();
        for (int i = 0; i < 2; i++)
        {
            std::string u = who[mode][i];
            bool in = u == "alice" || u == "bob", ok = in && (ct || u == "bob");
            if (in != (res[i].substr(0, 7) == "init:ok")
                || ok != (res[i].find(":ret0:next0:none#r") != std::string::npos))
                mc::fail("session", "%s got %s", u.c_str(), res[i].c_str());
            delete c[i];
        }
        out = std::to_string(ct) + std::to_string(mode);
    }
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}
