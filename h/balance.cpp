// Load balancing among targets.
// ONLY: filter_load_balance package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_load_balance.hpp"

enum { OK, DROP, CLOSE, SILENT };

struct Target {
    int open, busy, lost;
    Target() : open(0), busy(0), lost(0) {}
    int cost() const { return open + busy + lost; }
};

struct Lb {
    mp::RouterChain r;
    yf::LoadBalance f;
    zh::Fn server;
    std::map<std::string, Target> t;           // expected statistics
    std::map<unsigned long, std::string> of;   // target of a session
    std::vector<std::string> tried;
    std::map<std::string, int> fault_of;       // fault at the next Init
    int fault;
    bool yield;
    std::function<void()> meanwhile;           // happens during a request
    Lb() : fault(OK), yield(false)
    {
        r.append(f);
        r.append(server);
        server.f = [this](mp::Package &p) { serve(p); };
        zh::configure(f, "<f/>");
    }
    void serve(mp::Package &p)
    {
        Z_GDU *g = p.request().get();
        if (!g || g->which != Z_GDU_Z3950)
            return;
        if (yield)
            mc::point("server");
        mc::NoRace nr;
        mp::odr o;
        Z_APDU *a = g->u.z3950;
        if (a->which == Z_APDU_initRequest)
        {
            std::list<std::string> l;
            mp::util::get_vhost_otherinfo(a->u.initRequest->otherInfo, l);
            if (l.size() != 1)
                mc::fail("one", "%d targets named in an Init", (int) l.size());
            std::string h = l.front();
            mc::note("Init for %s", h.c_str());
            tried.push_back(h);
            int k = fault_of[h];
            if (k)
            {
                if (k == CLOSE)
                    p.response() = o.create_close(a, Z_Close_systemProblem, "no");
                p.session().close();
                return;
            }
            of[p.session().id()] = h;
            Z_APDU *r = o.create_initResponse(a, 0, 0);
            p.response() = r;
            return;
        }
        int k = fault;
        if (meanwhile)
        {
            t[of[p.session().id()]].busy++;
            meanwhile();
            t[of[p.session().id()]].busy--;
        }
        if (a->which == Z_APDU_close)
        {
            p.response() = o.create_close(a, Z_Close_finished, 0);
            p.session().close();
            return;
        }
        if (k == CLOSE || k == DROP)
        {
            if (k == CLOSE)
                p.response() = o.create_close(a, Z_Close_systemProblem, "gone");
            p.session().close();
            return;
        }
        if (k == SILENT)
            return;
        p.response() = o.create_searchResponse(a, 0, 0);
    }
    static Z_APDU *init(ODR o, const std::vector<std::string> &h)
    {
        Z_APDU *a = zh::init_req(o, "i");
        mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o,
                                      std::list<std::string>(h.begin(), h.end()));
        return a;
    }
    // open a session, with the targets in `down` failing
    bool open(zh::Client &c, const std::vector<std::string> &h)
    {
        ODR o = odr_createmem(ODR_ENCODE);
        tried.clear();
        std::string a = c.send(init(o, h));
        odr_destroy(o);
        mc::evaluated();
        std::set<std::string> left(h.begin(), h.end());
        for (size_t i = 0; i < tried.size(); i++)
        {
            if (!left.count(tried[i]))
                mc::fail("again", "target %s tried twice or not named",
                         tried[i].c_str());
            for (auto &x : left)
                if (t[x].cost() < t[tried[i]].cost())
                    mc::fail("balance", "%s chosen (%d sessions, %d requests, %d "
                             "lost) although %s is less loaded (%d, %d, %d)",
                             tried[i].c_str(), t[tried[i]].open, t[tried[i]].busy,
                             t[tried[i]].lost, x.c_str(), t[x].open, t[x].busy,
                             t[x].lost);
            left.erase(tried[i]);
            if (i + 1 < tried.size() && !fault_of[tried[i]])
                mc::fail("again", "target tried after another accepted");
        }
        bool good = false;
        for (auto &x : h)
            good |= !fault_of[x];
        if (good ? a != "init:ok#i" || c.closed
            : a.substr(0, 9) != "init:fail" || !c.closed || left.size())
            mc::fail("init", "Init answered with %s (targets available: %s)",
                     a.c_str(), good ? "yes" : "no");
        if (good)
            t[tried.back()].open++;
        return good;
    }
};

static const char *const host[] = { "h0", "h1", "h2" };

// every sequence of opening, using and ending sessions
MC_SCENARIO(lb_seq, 0)
{
    zh::quiet();
    int depth = mc::param("depth", 6), max = mc::param("sessions", 3);
    std::string out;
    {
        Lb lb;
        std::vector<zh::Client *> c;
        std::vector<bool> live;
        auto hosts = [&](int k) {
            return k == 0 ? zh::v("h0", "h1") : k == 1 ? zh::v("h2", "h1", "h0")
                : zh::v("h1"); };
        auto gone = [&](int i, bool lost) {
            Target &x = lb.t[lb.of[c[i]->session.id()]];
            x.open--;
            x.lost += lost;
            live[i] = false;
        };
        for (int d = 0; d < depth; d++)
        {
            int n = live.size();
            std::vector<int> l;
            for (int i = 0; i < n; i++)
                if (live[i])
                    l.push_back(i);
            int op = mc::choose(((int) l.size() < max ? 3 : 0) + 4 * l.size());
            if (op >= 4 * (int) l.size())
            {
                std::vector<std::string> h = hosts(op - 4 * l.size());
                lb.fault_of.clear();
                for (auto &x : h)
                    lb.fault_of[x] = mc::choose(3, mc::FAULT);
                zh::Client *k = new zh::Client(lb.r);
                c.push_back(k);
                live.push_back(lb.open(*k, h));
                out += "o" + (live.back() ? lb.tried.back() : std::string("-"));
                continue;
            }
            int i = l[op / 4];
            ODR o = odr_createmem(ODR_ENCODE);
            std::string a;
            switch (op % 4)
            {
            case 0:
                lb.fault = mc::choose(4, mc::FAULT);
                a = c[i]->send(zh::search_req(o, "a", "1", zh::v("x"), true, "s"));
                if (lb.fault == OK && a != "search:0:ok:ret0:next0:none#s")
                    mc::fail("relay", "search answered with %s", a.c_str());
                if ((lb.fault == DROP || lb.fault == CLOSE) != c[i]->closed)
                    mc::fail("closed", "search answered with %s", a.c_str());
                if (c[i]->closed)
                    gone(i, true);
                break;
            case 3:             // another session starts during a request
                lb.fault = OK;
                lb.meanwhile = [&]() {
                    lb.fault_of.clear();
                    zh::Client *k = new zh::Client(lb.r);
                    lb.open(*k, hosts(0));
                    c.push_back(k);
                    live.push_back(true);
                };
                a = c[i]->send(zh::search_req(o, "a", "1", zh::v("x"), true, "s"));
                lb.meanwhile = nullptr;
                break;
            case 1:
                a = c[i]->send(zget_APDU(o, Z_APDU_close));
                if (!c[i]->closed)
                    mc::fail("closed", "Close answered with %s", a.c_str());
                gone(i, false);
                break;
            case 2:
                c[i]->close();
                gone(i, false);
            }
            odr_destroy(o);
            out += std::to_string(op % 4) + a.substr(0, 3);
        }
        for (auto x : c)
        {
            x->close();
            delete x;
        }
    }
    mc::outcome(out);
    mc::state(out);
}

// sessions used and ended at the same time; afterwards new ones are balanced
MC_SCENARIO(lb_mt, 0)
{
    zh::quiet();
    mc::sched_begin();
    std::string out;
    int mode = mc::choose(4);
    bool rev = mc::choose(2);
    {
        Lb lb;
        std::vector<zh::Client *> c;
        mc::calm(true);
        for (int i = 0; i < 3; i++)
        {
            c.push_back(new zh::Client(lb.r));
            if (i < 2)
                lb.open(*c[i], zh::v("h0", "h1"));
        }
        lb.fault = mode == 3 ? CLOSE : OK;
        lb.yield = true;
        mc::calm(false);
        std::vector<int> t;
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                // mode 0: different sessions; 1: one session, two requests;
                // 2: a request of a session and a new session;
                // 3: one session, two requests which end it
                zh::Client k = *c[mode == 0 ? i : mode == 2 ? i * 2 : 0];
                ODR o = odr_createmem(ODR_ENCODE);
                if (mode == 2 && i)
                    k.send(Lb::init(o, zh::v("h1", "h2")));
                else
                {
                    k.send(zh::search_req(o, "a", "1", zh::v("x")));
                    if ((mode == 0 && i) || (mode == 1 && i))
                        k.send(zget_APDU(o, Z_APDU_close));
                }
                odr_destroy(o);
            }));
        for (int x : t)
            mc::join(x);
        mc::calm(true);
        lb.fault = OK;
        lb.yield = false;
        // the statistics as they must be now
        if (mode == 0)
            lb.t[lb.of[c[1]->session.id()]].open--;
        if (mode == 1 || mode == 3)
            lb.t[lb.of[c[0]->session.id()]].open--;
        if (mode == 2)
            lb.t[lb.of[c[2]->session.id()]].open++;
        if (mode == 3)
        {
            // one request ends it; whether the other counts as a loss
            // depends on their order
            for (int k = 0; k < 2; k++)
                lb.t["h" + std::to_string(k)].lost +=
                    lb.of[c[0]->session.id()] == "h" + std::to_string(k);
        }
        std::vector<zh::Client *> more;
        for (int i = 0; i < 4; i++)
        {
            more.push_back(new zh::Client(lb.r));
            lb.open(*more.back(), rev ? zh::v("h2", "h1", "h0")
                    : zh::v("h0", "h1", "h2"));
            out += lb.tried.back();
        }
        for (auto x : more)
        {
            x->close();
            delete x;
        }
        for (auto x : c)
        {
            x->close();
            delete x;
        }
        mc::calm(false);
    }
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}
