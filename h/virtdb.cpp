// Virtual databases.
// ONLY: filter_virt_db package session origin filter util xmlutil router_chain
#include "be.hpp"
#include "filter_virt_db.hpp"

static const char *const conf =
    "<f xmlns='http://indexdata.com/metaproxy'>"
    "<virtual><database>A</database><target>h0/d0</target></virtual>"
    "<virtual><database>b</database><target>h1</target></virtual>"
    "<virtual><database>c</database><target>h0/d0</target><target>h1/d1</target>"
    "</virtual>"
    "<virtual route='X'><database>d*</database><target>h3/x+y</target></virtual>"
    "<virtual><database>dd</database><target>h4</target></virtual>"
    "</f>";

struct Db {
    std::vector<std::string> dbs;      // as asked for
    std::string key;                   // same session at the target
    std::vector<std::string> vhosts;   // targets
    std::vector<std::string> at;       // databases at the target
    char route;
    int diag;
    const char *addinfo;
};
static std::vector<Db> table()
{
    using zh::v;
    std::vector<Db> t;
    t.push_back({ v("A"), "a", v("h0/d0"), v("d0"), '-', 0, "" });
    t.push_back({ v("a"), "a", v("h0/d0"), v("d0"), '-', 0, "" });
    t.push_back({ v("b"), "b", v("h1"), v("b"), '-', 0, "" });
    t.push_back({ v("c"), "c", v("h0/d0", "h1/d1"), v("d0"), '-', 0, "" });
    t.push_back({ v("dd"), "dd", v("h3/x+y"), v("x", "y"), 'X', 0, "" });
    t.push_back({ v("A", "b"), "a+b", v("h0/d0", "h1"), v("d0"), '-', 0, "" });
    t.push_back({ v("q"), "", v(0), v(0), '-', 235, "q" });
    t.push_back({ v("A", "dd"), "", v(0), v(0), '-', 23, "" });
    return t;
}

struct SetM { int db; std::string q; bool maybe; };

static std::string lower(std::string s)
{
    for (auto &c : s)
        c = tolower(c);
    return s;
}
struct World {
    zh::Routes r;
    zh::Server main, x;
    yf::VirtualDB f;
    std::vector<Db> t;
    zh::Server::Sess *cur;
    std::map<zh::Server::Sess *, std::vector<std::string> > vh;
    int fault;
    World(bool named, bool faults) : t(table()), cur(0), fault(0)
    {
        r.r[""].push_back(&f);
        r.r[""].push_back(&main);
        r.r["X"].push_back(&x);
        zh::configure(f, conf);
        for (zh::Server *s : { &main, &x })
        {
            s->named = named;
            s->fault = [this, s, faults](zh::Server::Sess &x, const Z_APDU *a) {
                cur = &x;
                if (a->which == Z_APDU_initRequest)
                {
                    std::list<std::string> l;
                    mp::util::get_vhost_otherinfo(a->u.initRequest->otherInfo, l);
                    vh[&x] = std::vector<std::string>(l.begin(), l.end());
                    Z_IdAuthentication *u = a->u.initRequest->idAuthentication;
                    if (!u || u->which != Z_IdAuthentication_idPass
                        || strcmp(u->u.idPass->userId, "u")
                        || strcmp(u->u.idPass->password, "p"))
                        mc::fail("user", "credentials of the client not passed on");
                }
                if (!faults)
                    return 0;
                static const int ff[] = { zh::F_NONE, zh::F_DROP, zh::F_DIAG };
                fault = ff[mc::choose(3, mc::FAULT)];
                if (fault)
                    mc::note("fault %d", fault);
                return fault;
            };
            // what a record says about where it comes from
            s->record = [this, s](const std::string &db, const std::string &q,
                                  long pos, const std::string &esn) {
                std::string w;
                for (auto &h : vh[cur])
                    w += h + ",";
                return std::string(s == &x ? "X" : "-") + w + db + ":" + q.substr(15)
                    + ":" + std::to_string(pos) + esn; };
            // the multiplexer names the target
            s->name = [this](const std::string &db, long pos) {
                return vh[cur].size() > 1 ? vh[cur][(pos - 1) % vh[cur].size()]
                    : db; };
        }
    }
    std::string want(const SetM &s, long from, long n)
    {
        const Db &d = t[s.db];
        std::string r = "recs(";
        for (long i = from; i < from + n; i++)
        {
            std::string name = d.dbs[0], w;
            if (d.vhosts.size() > 1)
                name = d.dbs[(i - 1) % d.dbs.size()];
            for (auto &h : d.vhosts)
                w += h + ",";
            r += std::string(i > from ? "," : "") + "["
                + name + "]" + d.route + w
                + d.at[(i - 1) % d.at.size()] + ":" + s.q + ":" + std::to_string(i);
        }
        return lower(r + ")");
    }
};

static std::string recs_of(mp::Package &p)
{
    Z_GDU *g = p.response().get();
    if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_searchResponse)
        return zh::records(g->u.z3950->u.searchResponse->records);
    if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_presentResponse)
        return zh::records(g->u.z3950->u.presentResponse->records);
    return "?";
}

// every sequence of searches, presents and scans of one session
MC_SCENARIO(vd_seq, 0)
{
    zh::quiet();
    bool named = mc::choose(2) == 0;
    int depth = mc::param("depth", 3), ndb = mc::param("dbs", 8);
    std::string out;
    {
        World w(named, true);
        zh::Client cl(w.r);
        ODR o = odr_createmem(ODR_ENCODE);
        std::string a = cl.send(zh::init_req(o, "i", "", "u", "p"));
        if (a != "init:ok#i")
            mc::fail("init", "Init answered with %s", a.c_str());
        std::map<std::string, SetM> sets;
        for (int d = 0; d < depth && !cl.closed; d++)
        {
            // searches, searches which may not replace, scans, presents
            int op = mc::choose(3 * ndb + 4);
            w.fault = 0;
            std::string ref = "#r" + std::to_string(d), got;
            auto look = [&](mp::Package &p) { got = lower(recs_of(p)); };
            if (op < 2 * ndb + 2)
            {
                bool replace = op < 2 * ndb;
                std::string set = op & 1 ? "1" : "2", q = "q" + std::to_string(d);
                int db = replace ? op / 2 : 0;
                const Db &x = w.t[db];
                bool exists = sets.count(set), piggy = d == 1;
                Z_APDU *s = zh::search_req(o, q, set, x.dbs, replace, ref.substr(1));
                if (piggy)
                {
                    *s->u.searchRequest->smallSetUpperBound = 10;
                    *s->u.searchRequest->largeSetLowerBound = 20;
                }
                a = cl.send(s, look);
                mc::evaluated();
                SetM m = { db, q, false };
                std::string want = piggy ? w.want(m, 1, x.diag ? 0 : 3) : "none";
                if (exists && !replace)
                {
                    if (got != "d:21:" && !(sets[set].maybe && !w.fault
                                            && got == want))
                        mc::fail("replace", "search for existing set answered with "
                                 "%s", a.c_str());
                    if (got == want)
                        sets[set] = m;
                }
                else if (x.diag)
                {
                    if (got != "d:" + std::to_string(x.diag) + ":" + x.addinfo)
                        mc::fail("unknown", "search of %s answered with %s",
                                 x.dbs.back().c_str(), a.c_str());
                    if (exists)
                        sets[set].maybe = true;
                }
                else if (w.fault)
                {
                    if (!cl.closed && got.substr(0, 2) != "d:")
                        mc::fail("fault", "search failed at the target but was "
                                 "answered with %s", a.c_str());
                    if (exists)
                        sets[set].maybe = true;
                }
                else
                {
                    if (got != want || a.substr(0, 12) != "search:3:ok:")
                        mc::fail("search", "search of %s (%s) answered with %s; %s "
                                 "expected", x.dbs[0].c_str(), q.c_str(),
                                 a.c_str(), want.c_str());
                    sets[set] = m;
                }
            }
            else if (op < 2 * ndb + 4)
            {
                std::string set = op & 1 ? "1" : "2";
                a = cl.send(zh::present_req(o, set, 2, 2, 0, 0, ref.substr(1)), look);
                auto it = sets.find(set);
                std::string none = "d:30:" + set;
                std::string want = it == sets.end() ? none
                    : w.want(it->second, 2, 2);
                mc::evaluated();
                if (w.fault ? !cl.closed && got.substr(0, 2) != "d:" : got != want
                    && !(it != sets.end() && it->second.maybe
                         && got.substr(0, 5) == "d:30:"))
                    mc::fail("present", "present from set %s answered with %s; %s "
                             "expected", set.c_str(), a.c_str(), want.c_str());
            }
            else
            {
                const Db &x = w.t[op - (2 * ndb + 4)];
                std::string q = "t" + std::to_string(d);
                Z_APDU *s = zh::scan_req(o, "", q, 5, 1, ref.substr(1));
                zh::set_dbs(o, &s->u.scanRequest->num_databaseNames,
                            &s->u.scanRequest->databaseNames, x.dbs);
                a = cl.send(s);
                std::string diag = "!d:" + std::to_string(x.diag) + ":" + x.addinfo
                    + ref;
                std::string want = x.diag ? diag : ":" + x.at[0] + "-" + q + "=4"
                    + ref;
                mc::evaluated();
                if (w.fault ? !cl.closed && a.find("!d:") == std::string::npos
                    : a.size() < want.size()
                    || a.substr(a.size() - want.size()) != want)
                    mc::fail("scan", "scan of %s answered with %s; %s expected",
                             x.dbs[0].c_str(), a.c_str(), want.c_str());
            }
            if (!cl.closed && (a.size() < ref.size()
                               || a.substr(a.size() - ref.size()) != ref))
                mc::fail("ref", "answer %s without reference of the request",
                         a.c_str());
            if (cl.closed && w.fault != zh::F_DROP)
                mc::fail("closed", "session ended by %s", a.c_str());
            out += "|" + a;
            // one session per combination of databases
            std::map<std::string, int> n;
            if (named)
                for (auto &x : w.vh)
                    if (x.first->init && !x.first->closed)
                    {
                        std::string k;
                        for (auto &h : x.second)
                            k += h + " ";
                        // no two combinations have the same targets here but
                        // those which differ in case
                        if (++n[k] > 1)
                            mc::fail("sessions", "more sessions to %sthan one",
                                     k.c_str());
                    }
        }
        odr_destroy(o);
        cl.close();
        for (zh::Server *s : { &w.main, &w.x })
            for (auto &x : s->s)
                if (x.second.requests && !x.second.closed)
                    mc::fail("left-open", "session to target left open");
    }
    mc::outcome(out);
    mc::state(out);
}

// a session before its Init, with a target of its own, a second Init
MC_SCENARIO(vd_init, 0)
{
    zh::quiet();
    std::string out;
    bool pass = mc::choose(2);
    {
        mp::RouterChain r;
        zh::Server s;
        yf::VirtualDB f;
        r.append(f);
        r.append(s);
        zh::configure(f, pass ? "<f><pass-vhosts>true</pass-vhosts></f>" : "<f/>");
        zh::Client cl(r);
        ODR o = odr_createmem(ODR_ENCODE);
        bool own = false, virt = false;
        for (int d = 0; d < 3 && !cl.closed; d++)
        {
            int op = mc::choose(4);
            size_t before = s.log.size();
            std::string a, ref = "r" + std::to_string(d);
            if (op < 2)
                a = cl.send(zh::init_req(o, ref, op ? "h9" : "", "u", "p"));
            else if (op == 2)
                a = cl.send(zh::search_req(o, "a", "1", zh::v("z"), true, ref));
            else
                a = cl.send(zh::http_req(o, "/x"));
            bool relayed = s.log.size() > before;
            mc::evaluated();
            if (op < 2 && virt)
            {
                if (!cl.closed || a.substr(0, 6) != "close:")
                    mc::fail("double", "second Init answered with %s", a.c_str());
            }
            else if (op < 2 && op == 1 && pass)
            {
                own = true;
                if (!relayed)
                    mc::fail("pass", "Init with target not passed on");
            }
            else if (op < 2)
            {
                virt = true;
                if (relayed || a.substr(0, 7) != "init:ok")
                    mc::fail("virtual", "Init answered with %s", a.c_str());
            }
            else if (op == 2 && virt)
            {
                if (relayed || a.find("d:235:z") == std::string::npos)
                    mc::fail("unknown", "search answered with %s", a.c_str());
            }
            else if (op == 2 && !relayed)
                mc::fail("relay", "search of a session without virtual databases "
                         "not passed on");
            out += "|" + a;
        }
        odr_destroy(o);
        cl.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// two sessions, and two requests of one session, at the same time
MC_SCENARIO(vd_mt, 0)
{
    zh::quiet();
    mc::sched_begin();
    std::string out;
    bool same = mc::choose(2), named = mc::choose(2) == 0;
    int db = mc::choose(2) ? 0 : 2;
    {
        World w(named, false);
        w.main.yield = true;
        std::vector<zh::Client *> cl;
        mc::calm(true);
        for (int i = 0; i < (same ? 1 : 2); i++)
        {
            cl.push_back(new zh::Client(w.r));
            ODR o = odr_createmem(ODR_ENCODE);
            if (same)
                cl[i]->send(zh::init_req(o, "i", "", "u", "p"));
            odr_destroy(o);
        }
        mc::calm(false);
        std::vector<int> t;
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                zh::Client c = *cl[same ? 0 : i];
                ODR o = odr_createmem(ODR_ENCODE);
                std::string set = std::to_string(i), q = "q" + set;
                int d = i ? 0 : db;
                if (!same)
                    c.send(zh::init_req(o, "i", "", "u", "p"));
                std::string a = c.send(zh::search_req(o, q, set, w.t[d].dbs, true,
                                                      "s" + set));
                std::string b = c.send(zh::present_req(o, set, 1, 2, 0, 0,
                                                       "p" + set));
                {
                    mc::NoRace nr;
                    SetM m = { d, q, false };
                    std::string s = w.want(m, 1, 2) + "#p" + set;
                    mc::evaluated();
                    if (a.substr(0, 9) != "search:3:"
                        || a.substr(a.size() - 3) != "#s" + set)
                        mc::fail("search", "search answered with %s", a.c_str());
                    b = lower(b);
                    if (b.size() < s.size() || b.substr(b.size() - s.size()) != s)
                        mc::fail("present", "present answered with %s; %s expected",
                                 b.c_str(), s.c_str());
                }
                odr_destroy(o);
                if (!same)
                    c.close();
            }));
        for (int x : t)
            mc::join(x);
        if (same)
            cl[0]->close();
        for (auto x : cl)
            delete x;
        for (auto &x : w.main.s)
            if (x.second.requests && !x.second.closed)
                mc::fail("left-open", "session to target left open");
        out = std::to_string(w.main.s.size());
    }
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}
