// Limits per session.
// ONLY: filter_limit package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_limit.hpp"

struct Conf { int search, pdu, bw, retrieve; };
static const Conf confs[] = {
    { 2, 0, 0, 0 }, { 0, 3, 0, 0 }, { 0, 0, 400, 0 }, { 0, 0, 0, 2 },
    { 3, 4, 0, 5 }, { 0, 100, 0, 1 }, { 0, 0, 0, 0 },
};
enum { NCONF = sizeof(confs) / sizeof(*confs) };

static std::string xml(const Conf &c)
{
    std::string s = "<f><limit";
    auto add = [&](const char *n, int v) {
        if (v)
            s += std::string(" ") + n + "='" + std::to_string(v) + "'";
    };
    add("search", c.search);
    add("pdu", c.pdu);
    add("bandwidth", c.bw);
    add("retrieve", c.retrieve);
    return s + "/></f>";
}

struct Ev { int64_t t; long pdu, search, bytes; };
struct Ses {
    zh::Client *c;
    std::vector<Ev> ev;
};

struct Srv : public zh::Fn {
    size_t in, out;
    long asked;
    std::string what;
    bool yield;
    Srv() : in(0), out(0), asked(-1), yield(false)
    {
        f = [this](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g || g->which != Z_GDU_Z3950)
                return;
            if (yield)
                mc::point("server");
            mc::NoRace nr;
            mp::odr o;
            what = zh::desc(g);
            Z_APDU *a = g->u.z3950;
            if (a->which == Z_APDU_presentRequest)
            {
                asked = *a->u.presentRequest->numberOfRecordsRequested;
                p.response() = o.create_presentResponse(a, 0, 0);
            }
            else if (a->which == Z_APDU_searchRequest)
                p.response() = o.create_searchResponse(a, 0, 0);
            else if (a->which == Z_APDU_close)
            {
                p.response() = o.create_close(a, Z_Close_finished, 0);
                p.session().close();
            }
            else
                p.response() = o.create_initResponse(a, 0, 0);
            in = p.request().get_size();
            out = p.response().get_size();
        };
    }
};

// every sequence of requests and pauses of two sessions
MC_SCENARIO(li_seq, 0)
{
    zh::quiet();
    mc::clock_reset();
    mc::sched_begin();
    mc::calm(true);
    int depth = mc::param("depth", 5);
    bool one = mc::param("one", 0);     // fewer choices: one session
    Conf cf = confs[mc::choose(NCONF)];
    std::string out;
    {
        mp::RouterChain r;
        yf::Limit f;
        Srv s;
        r.append(f);
        r.append(s);
        zh::configure(f, xml(cf));
        Ses ses[2];
        for (auto &x : ses)
            x.c = new zh::Client(r);
        for (int d = 0; d < depth; d++)
        {
            int op = one ? 2 * mc::choose(4) : mc::choose(8);
            if (one && op == 6)
                op += mc::choose(2);
            if (op >= 6)
            {
                mc::advance_ms(op == 6 ? 25000 : 62000);
                out += op == 6 ? "w" : "W";
                continue;
            }
            Ses &x = ses[op & 1];
            if (x.c->closed)
                break;
            ODR o = odr_createmem(ODR_ENCODE);
            int kind = op / 2, n = 0;
            Z_APDU *a = kind == 0 ? zh::search_req(o, "a", "1", zh::v("x"), true, "r")
                : kind == 1 ? zh::present_req(o, "1", 1, n = 1 + (one ? 1 : mc::choose(3)) * 2, 0,
                                              0, "r")
                : zh::init_req(o, "r");
            Z_GDU g;
            g.which = Z_GDU_Z3950;
            g.u.z3950 = a;
            std::string sent = zh::desc(&g);
            int64_t t0 = mc::now_ms();
            std::string got = x.c->send(a);
            int64_t t1 = mc::now_ms();
            odr_destroy(o);
            long slept = (t1 - t0) / 1000;
            mc::evaluated();
            if (kind == 1)
            {
                long want = cf.retrieve && n > cf.retrieve ? cf.retrieve : n;
                if (s.asked != want)
                    mc::fail("retrieve", "present of %d records relayed as one of "
                             "%ld (limit %d)", n, s.asked, cf.retrieve);
            }
            else if (s.what != sent)
                mc::fail("relay", "%s relayed as %s", sent.c_str(), s.what.c_str());
            if (got.substr(got.size() - 2) != "#r")
                mc::fail("answer", "%s answered with %s", sent.c_str(), got.c_str());
            Ev e = { t0, 1, kind == 0, (long) (s.in + s.out) };
            x.ev.push_back(e);
            // the last minute; whether its very edge counts is left open
            long lo[3] = { 0, 0, 0 }, hi[3] = { 0, 0, 0 };
            for (auto &y : x.ev)
            {
                long v[3] = { y.search, y.pdu, y.bytes };
                for (int k = 0; k < 3; k++)
                {
                    if (t0 - y.t < 59000)
                        lo[k] += v[k];
                    if (t0 - y.t <= 61000)
                        hi[k] += v[k];
                }
            }
            int lim[3] = { cf.search, cf.pdu, cf.bw };
            bool over = false, maybe = false;
            for (int k = 0; k < 3; k++)
            {
                over |= lim[k] && lo[k] > lim[k];
                maybe |= lim[k] && hi[k] >= lim[k];
            }
            if (over && slept < 1)
                mc::fail("limit", "%ld searches, %ld requests, %ld bytes within a "
                         "minute (limits %d %d %d), not slowed down",
                         lo[0], lo[1], lo[2], lim[0], lim[1], lim[2]);
            if (!maybe && slept)
                mc::fail("slow", "%ld searches, %ld requests, %ld bytes within a "
                         "minute (limits %d %d %d), slowed down by %ld s",
                         hi[0], hi[1], hi[2], lim[0], lim[1], lim[2], slept);
            out += std::to_string(op) + ":" + std::to_string(slept) + " ";
        }
        for (auto &x : ses)
        {
            x.c->close();
            delete x.c;
        }
    }
    mc::calm(false);
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}

// a session that is slowed down does not slow down others
MC_SCENARIO(li_mt, 0)
{
    zh::quiet();
    mc::clock_reset();
    mc::sched_begin();
    std::string out;
    int mode = mc::choose(3);   // two sessions; one session; one ends meanwhile
    {
        mp::RouterChain r;
        yf::Limit f;
        Srv s;
        r.append(f);
        r.append(s);
        Conf cf = { 2, 0, 0, 0 };
        zh::configure(f, xml(cf));
        zh::Client *c[2] = { new zh::Client(r), new zh::Client(r) };
        mc::calm(true);
        for (int i = 0; i < 2; i++)
        {
            ODR o = odr_createmem(ODR_ENCODE);
            c[0]->send(zh::search_req(o, "a", "1", zh::v("x")));
            odr_destroy(o);
        }
        s.yield = true;
        mc::calm(false);
        std::vector<int> t;
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                zh::Client k = *c[mode == 1 ? 0 : i];
                int64_t t0 = mc::now_ms();
                ODR o = odr_createmem(ODR_ENCODE);
                k.send(mode == 2 && i == 0 ? zget_APDU(o, Z_APDU_close)
                       : zh::search_req(o, "a", "1", zh::v("x"), true, "r"));
                odr_destroy(o);
                long slept = (mc::now_ms() - t0) / 1000;
                mc::NoRace nr;
                mc::evaluated();
                bool slow = mode == 1 || (mode == 0 && i == 0);
                if (mode == 2 && i == 0)
                    return;
                if (slow != (slept > 0))
                    mc::fail("other", "session %d %s", i, slow ? "over its limit not "
                             "slowed down" : "slowed down with another");
            }));
        for (int x : t)
            mc::join(x);
        mc::calm(true);
        for (auto x : c)
        {
            x->close();
            delete x;
        }
        mc::calm(false);
        out = std::to_string(mode);
    }
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}
