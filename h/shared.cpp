// Sharing of backend sessions and result sets.
// ONLY: filter_session_shared package session origin filter util xmlutil router_chain
#include "be.hpp"
#include "filter_session_shared.hpp"

struct Cfg {
    bool named;
    int sets, max;
    bool optimize, restart;
};
static const Cfg cfgs[] = {
    { true, 2, 2, true, false },
    { true, 1, 2, true, true },
    { false, 2, 2, true, false },
    { true, 2, 1, true, true },
    { true, 2, 2, false, false },
    { false, 1, 1, false, true },
};
enum { NCFG = sizeof(cfgs) / sizeof(*cfgs) };

static std::string xml(const Cfg &c)
{
    return "<f><resultset ttl='30' max='" + std::to_string(c.sets)
        + "' optimizesearch='" + (c.optimize ? "1" : "0") + "' restart='"
        + (c.restart ? "1" : "0") + "'/><session ttl='90' max='"
        + std::to_string(c.max) + "'/></f>";
}

static long hits(const std::vector<std::string> &d, const std::string &q)
{
    if (q.find("bad") != std::string::npos)
        return -114;
    return q.back() == 'b' ? 5 : 3;
}
// search answers without the next position
static std::string norm(std::string s)
{
    if (s.substr(0, 7) == "search:")
    {
        size_t i = s.find(":next");
        size_t j = s.find(':', i + 1);
        s.erase(i, j - i);
    }
    return s;
}
// a refusal or failure rather than a result
static bool failed(const std::string &s)
{
    return s.find(":d:") != std::string::npos || s.substr(0, 6) == "close:"
        || s.find("!closed") != std::string::npos || s.substr(0, 9) == "init:fail"
        || s.find("!d:") != std::string::npos;
}

struct Front {
    zh::Client *c;
    mp::Session ideal;
    bool init, gone;
    std::string user, last;
};

MC_SCENARIO(sh_seq, 0)
{
    zh::quiet();
    mc::clock_reset();
    int depth = mc::param("depth", 3), n = mc::param("sessions", 3);
    Cfg cfg = cfgs[mc::choose(mc::param("cfgs", NCFG))];
    std::string out;
    zh::Server server, ideal;
    server.hits = ideal.hits = hits;
    ideal.same_db = true;
    server.named = cfg.named;
    server.max_sets = cfg.named ? cfg.sets : 1;
    int fault = 0;
    bool fault_search = false;
    std::map<std::string, std::string> user_of;   // backend session -> user
    server.fault = [&](zh::Server::Sess &x, const Z_APDU *a) {
        int f = mc::choose(a->which == Z_APDU_searchRequest ? 5 : 3, mc::FAULT);
        if (f == 2 && a->which != Z_APDU_searchRequest)
            f = zh::F_DIAG;
        if (f)
            mc::note("fault %d", f);
        if (f)
            fault = f, fault_search = a->which == Z_APDU_searchRequest;
        return f;
    };
    {
        mp::RouterChain r, ri;
        yf::SessionShared f;
        r.append(f);
        r.append(server);
        ri.append(ideal);
        zh::configure(f, xml(cfg));
        std::vector<Front> fs;
        for (int i = 0; i < n; i++)
        {
            Front x;
            x.c = new zh::Client(r);
            x.init = x.gone = false;
            x.user = i == 2 ? "v" : "u";
            fs.push_back(x);
        }
        // no request of one user may ever reach the session of another
        std::string cur_user;
        server.pre = [&](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (p.session().is_closed() || !g)
                return;
            auto it = server.s.find(p.session().id());
            if (it != server.s.end() && it->second.init
                && it->second.user != cur_user)
                mc::fail("auth", "request of user %s sent on the session of "
                         "user %s", cur_user.c_str(), it->second.user.c_str());
        };
        std::string prev;      // database and query of the search just done
        std::string prev_user;
        for (int d = 0; d < depth; d++)
        {
            int op = mc::choose(14);
            if (op == 13)
            {
                int dt = mc::choose(2) ? 91 : 31;
                mc::advance_ms(dt * 1000);
                mc::note("%d s later", dt);
                out += "T";
                prev = "";
                if (d == 0)
                    return mc::vacuous();
                continue;
            }
            int si = mc::choose(d == 0 ? 1 : n);
            Front &s = fs[si];
            if (s.gone)
                return mc::vacuous();
            cur_user = s.user;
            ODR o = odr_createmem(ODR_ENCODE);
            char ref[20];
            sprintf(ref, "s%dd%d", si, d);
            if (!s.init)
            {
                fault = 0;
                std::string a = s.c->send(zh::init_req(o, ref, "", s.user, "pw"));
                mc::note("session %d Init -> %s", si, a.c_str());
                zh::Client i(ri);
                i.session = s.ideal;
                i.send(zh::init_req(o, ref, "", s.user, "pw"));
                if (a != std::string("init:ok#") + ref)
                {
                    if (!fault)
                        mc::fail("answer:init", "Init answered with %s", a.c_str());
                    if (!failed(a) || a.find("!closed") == std::string::npos)
                        mc::fail("answer:init", "Init with failing target "
                                 "answered with %s", a.c_str());
                    s.c->close();
                    s.gone = true;
                    odr_destroy(o);
                    out += "I";
                    continue;
                }
                s.init = true;
                prev = "";
            }
            Z_APDU *a = 0;
            std::string key;
            switch (op)
            {
            case 0:
                a = zh::search_req(o, "a", "1", zh::v("A"), true, ref);
                key = "A a";
                break;
            case 1:
                a = zh::search_req(o, "b", "1", zh::v("A"), true, ref);
                key = "A b";
                break;
            case 2:
                a = zh::search_req(o, "a", "1", zh::v("B"), true, ref);
                key = "B a";
                break;
            case 3:
                a = zh::search_req(o, "@and @set 1 c", "2", zh::v("A"), true, ref);
                break;
            case 4:
                a = zh::search_req(o, "bad", "1", zh::v("A"), true, ref);
                break;
            case 5:
                a = zh::search_req(o, "b", "1", zh::v("A", "B"), false, ref);
                break;
            case 6:
                a = zh::present_req(o, "1", 1, 1, 0, 0, ref);
                break;
            case 7:
                a = zh::present_req(o, "1", 2, 2, 0, "F", ref);
                break;
            case 8:
                a = zh::present_req(o, "2", 1, 2, yaz_oid_recsyn_usmarc, 0, ref);
                break;
            case 9:
                a = zh::present_req(o, "1", 3, 2, 0, 0, ref);
                break;
            case 10:
                a = zh::scan_req(o, "A", "t", 5, 2, ref);
                break;
            case 11:
                a = zget_APDU(o, Z_APDU_close);
                zh::set_ref(o, a, ref);
                break;
            case 12:
                mc::note("session %d leaves", si);
                s.c->close();
                s.gone = true;
                odr_destroy(o);
                out += "L";
                continue;
            }
            fault = 0;
            size_t l0 = server.log.size();
            Z_GDU g;
            g.which = Z_GDU_Z3950;
            g.u.z3950 = a;
            std::string pdu = zh::desc(&g);
            std::string got = norm(s.c->send(a));
            mc::note("session %d %s -> %s", si, pdu.c_str(), got.c_str());
            if (op == 11)
            {
                if (got.substr(0, 6) != "close:" || !s.c->closed)
                    mc::fail("answer:close", "Close answered with %s", got.c_str());
                s.c->close();
                s.gone = true;
                odr_destroy(o);
                out += "C";
                continue;
            }
            zh::Client i(ri);
            i.session = s.ideal;
            zh::Server::Sess before = ideal.s[s.ideal.id()];
            std::string want = norm(i.send(a));
            int open = 0;
            for (auto &x : server.s)
                open += x.second.init && !x.second.closed
                    && x.second.user == s.user;
            if (open > cfg.max)
                mc::fail("max-sessions", "%d sessions to the target (limit %d)",
                         open, cfg.max);
            if (got != want)
            {
                bool full = (!cfg.named || cfg.sets == 1) && open == cfg.max
                    && got.find("all sessions in use") != std::string::npos;
                bool retry = cfg.restart && fault == zh::F_TEMP && fault_search;
                if (!failed(got) || (!full && (!fault || retry)))
                    mc::fail(op < 6 ? "answer:search" : op < 10 ? "answer:present"
                             : "answer:scan", "%s of session %d answered with %s, "
                             "a server of its own would answer %s", pdu.c_str(),
                             si, got.c_str(), want.c_str());
                if (got.find(std::string("#") + ref) == std::string::npos
                    && !s.c->closed)
                    mc::fail("ref", "%s answered with %s: wrong reference",
                             pdu.c_str(), got.c_str());
                if (op < 6)
                {
                    // a search that failed leaves no result set; one refused
                    // because the set exists leaves it alone
                    if (before.sets.size() == ideal.s[s.ideal.id()].sets.size()
                        && want.find(":d:21:") != std::string::npos)
                        ;
                    else
                        ideal.s[s.ideal.id()].sets.erase(
                            op == 3 ? "2" : "1");
                }
                if (s.c->closed)
                {
                    s.c->close();
                    s.gone = true;
                }
                prev = "";
                out += "F";
            }
            else
            {
                if (cfg.optimize && key.size() && key == prev
                    && s.user == prev_user && server.log.size() != l0 && !fault)
                    mc::fail("no-sharing", "%s repeated at once is searched again",
                             pdu.c_str());
                if (op != 6 && op != 7 && op != 9)
                {
                    prev = key;
                    prev_user = s.user;
                }
                out += "s" + std::to_string(server.log.size() - l0);
            }
            odr_destroy(o);
            mc::evaluated();
        }
        for (auto &s : fs)
        {
            if (!s.gone)
                s.c->close();
            delete s.c;
        }
        // clients gone: nothing is closed on the server before its time
    }
    for (auto &x : server.s)
        if (x.second.closes < 1)
            mc::fail("close-told", "backend session never told that it has ended");
    if (server.open())
        mc::fail("not-closed", "backend session open after the filter is gone");
    mc::outcome(out);
    mc::state(out);
}

// concurrent sessions
MC_SCENARIO(sh_mt, 0)
{
    zh::quiet();
    mc::clock_reset();
    mc::sched_begin();
    std::string out;
    int n = mc::param("sessions", 2), max = mc::param("max", 2);
    int ops = mc::param("ops", 7);      // 1 search, 2 present, 4 scan
    int mix = mc::choose(3);            // same query; different; scan only
    {
        zh::Server server, ideal;
        int fault = 0, refused = 0;
        server.yield = true;
        server.hits = ideal.hits = hits;
        server.fault = [&](zh::Server::Sess &, const Z_APDU *a) {
            if (!mc::param("faults", 1))
                return 0;
            int f = mc::choose(3, mc::FAULT);
            fault += f != 0;
            return f;
        };
        server.pre = [&](mp::Package &p) {
            if (p.request().get() && server.open() > max)
                mc::fail("max-sessions", "%d sessions to the target (limit %d)",
                         server.open(), max);
        };
        mp::RouterChain r, ri;
        ri.append(ideal);
        std::vector<zh::Client *> cl;
        {
            yf::SessionShared f;
            r.append(f);
            r.append(server);
            Cfg c = cfgs[0];
            c.max = max;
            c.named = true;
            c.sets = mc::param("sets", 2);
            c.restart = mc::param("restart", 0);
            zh::configure(f, xml(c));
            if (mc::param("start", 0))
                f.start();
            std::vector<int> t;
            for (int i = 0; i < n; i++)
                cl.push_back(new zh::Client(r));
            bool calm_init = mc::param("calm", 1);
            if (calm_init)
                mc::calm(true);
            std::vector<std::string> st(n);
            auto init = [&](int i) {
                ODR o = odr_createmem(ODR_ENCODE);
                std::string a = cl[i]->send(zh::init_req(o, "i", "", "u", "p"));
                odr_destroy(o);
                mc::NoRace nr;
                if (a != "init:ok#i" && !(fault && failed(a)))
                    mc::fail("answer:init", "Init answered with %s", a.c_str());
                return a == "init:ok#i";
            };
            std::vector<bool> up(n, true);
            if (calm_init)
                for (int i = 0; i < n; i++)
                    up[i] = init(i);
            mc::calm(false);
            for (int i = 0; i < n; i++)
                t.push_back(mc::spawn([&, i]() {
                    if (!calm_init && !init(i))
                    {
                        cl[i]->close();
                        return;
                    }
                    if (!up[i])
                        return;
                    for (int k = 0; k < 3; k++)
                    {
                        if (!(ops & (1 << k)) || (k == 2) != (mix == 2))
                            continue;
                        ODR o = odr_createmem(ODR_ENCODE);
                        std::string ref = std::to_string(i) + std::to_string(k);
                        Z_APDU *a = k == 0 ?
                            zh::search_req(o, mix == 1 && i ? "b" : "a", "1",
                                           zh::v("A"), true, ref)
                            : k == 1 ? zh::present_req(o, "1", 1, 2, 0, 0, ref)
                            : zh::scan_req(o, "A", "t", 5, 2, ref);
                        std::string got = norm(cl[i]->send(a));
                        mc::NoRace nr;
                        mc::note("session %d -> %s", i, got.c_str());
                        zh::Client ic(ri);
                        ic.send(zh::init_req(o));
                        if (k == 1)
                            ic.send(zh::search_req(o, mix == 1 && i ? "b" : "a",
                                                   "1", zh::v("A")));
                        std::string want = norm(ic.send(a));
                        bool full = n > max && got.find("all sessions in use")
                            != std::string::npos;
                        refused += full;
                        bool noset = got.find(":d:30:") != std::string::npos;
                        if (got != want && !(failed(got) && (full || fault || (
                            refused && noset))))
                            mc::fail("answer", "session %d answered with %s, "
                                     "a server of its own would answer %s",
                                     i, got.c_str(), want.c_str());
                        st[i] += got == want ? "+" : full ? "f" : "-";
                        odr_destroy(o);
                        if (cl[i]->closed)
                            break;
                    }
                    cl[i]->close();
                }));
            for (int i : t)
                mc::join(i);
            mc::NoRace nr;
            if (!fault && !refused && server.open() == 0)
                mc::fail("early-close", "no backend session left to share");
            for (int i = 0; i < n; i++)
                out += st[i] + " ";
            mc::calm(true);
        }
        for (auto c : cl)
            delete c;
        for (auto &x : server.s)
            if (x.second.closes < 1)
                mc::fail("close-told", "backend session never told that it has "
                         "ended");
        if (server.open())
            mc::fail("not-closed", "backend session open after the filter is gone");
    }
    mc::evaluated();
    mc::outcome(out);
    mc::state(out);
    mc::sched_end();
}

// unused backend sessions are closed after the session TTL
MC_SCENARIO(sh_expire, 0)
{
    zh::quiet();
    mc::clock_reset();
    mc::sched_begin();
    mc::calm(true);
    std::string out;
    {
        zh::Server server;
        server.hits = hits;
        server.yield = true;
        mp::RouterChain r;
        std::vector<zh::Client *> cl;
        {
            yf::SessionShared f;
            r.append(f);
            r.append(server);
            zh::configure(f, xml(cfgs[0]));
            f.start();
            ODR o = odr_createmem(ODR_ENCODE);
            for (int i = 0; i < 2; i++)
                cl.push_back(new zh::Client(r));
            // a history of uses and idle times
            int64_t last_use[2] = { -1, -1 };
            bool init[2] = { false, false };
            int rounds = mc::param("rounds", 3);
            for (int k = 0; k < rounds; k++)
            {
                int who = mc::choose(2);
                if (k == 0 && who)
                    who = 0;
                int other = mc::param("busy", 1) && k == rounds - 1 ? 1 - who : -1;
                for (int i : { who, other })
                    if (i >= 0 && !init[i])
                    {
                        std::string a = cl[i]->send(
                            zh::init_req(o, "", "", i ? "v" : "u", "p"));
                        if (a != "init:ok")
                            mc::fail("answer:init", "Init answered with %s",
                                     a.c_str());
                        init[i] = true;
                        last_use[i] = mc::now_ms();
                    }
                mc::calm(false);
                std::vector<int> t;
                for (int i : { who, other })
                    if (i >= 0)
                        t.push_back(mc::spawn([&, i]() {
                            ODR o = odr_createmem(ODR_ENCODE);
                            std::string a = norm(cl[i]->send(zh::search_req(
                                o, "a", "1", zh::v("A"))));
                            if (a != "search:3:ok:ret0:none")
                                mc::fail("answer:search", "search answered with "
                                         "%s", a.c_str());
                            mc::NoRace nr;
                            last_use[i] = mc::now_ms();
                            odr_destroy(o);
                        }));
                for (int i : t)
                    mc::join(i);
                mc::calm(true);
                int idle = mc::choose(3);
                int64_t end = mc::now_ms() + (idle == 0 ? 20 : idle == 1 ? 100 : 300)
                    * 1000;
                mc::block_until_timeout([]() { return false; }, end, "idle");
                mc::NoRace nr;
                for (int i = 0; i < 2; i++)
                {
                    int open = 0;
                    for (auto &x : server.s)
                        open += x.second.init && !x.second.closed
                            && x.second.user == (i ? "v" : "u");
                    if (last_use[i] < 0)
                        continue;
                    int64_t unused = mc::now_ms() - last_use[i];
                    out += std::to_string(open);
                    if (open > 1)
                        mc::fail("max-sessions", "%d sessions for one client", open);
                    // the TTL is checked once per TTL
                    if (open && unused > 2 * 90 * 1000 + 5000)
                        mc::fail("ttl", "backend session unused for %ld s still "
                                 "open", (long) (unused / 1000));
                    if (!open && unused < 90 * 1000)
                        mc::fail("early-close", "backend session closed after %ld "
                                 "s", (long) (unused / 1000));
                }
            }
            for (auto c : cl)
                c->close();
            odr_destroy(o);
        }
        for (auto c : cl)
            delete c;
        for (auto &x : server.s)
            if (x.second.closes < 1)
                mc::fail("close-told", "backend session never told that it has "
                         "ended");
    }
    mc::evaluated();
    mc::outcome(out);
    mc::state(out);
    mc::sched_end();
}
