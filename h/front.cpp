// The network front end: connections, sessions, requests and limits.
// ONLY: filter_frontend_net thread_pool_observer pipe package session origin filter util xmlutil router_chain gduutil
#include "zh.hpp"
#include "filter_frontend_net.hpp"
#include <signal.h>

extern "C" void yaz_daemon_stop(void) {}

enum { K_OK, K_UNHANDLED, K_CLOSE, K_SLOW, K_HTTP, K_HTTP_UNHANDLED, K_CLOSE_SILENT,
       K_STAT, K_MAX };
static const char *kname[] = { "ok", "unhandled", "close", "slow", "http",
    "http-unhandled", "close-silent", "stat" };

struct Seen { int conn, req; unsigned long session; };
struct World {
    std::vector<Seen> seen;               // requests that reached the chain
    std::map<unsigned long, int> closes;  // close packages per session
    std::map<unsigned long, int> conn_of; // session -> connection
    std::vector<std::string> late;
    bool stop_now;
    yf::FrontendNet *fe;
    int running;
};
static World *w;

// ref / path: c<conn>r<req>k<kind>
static std::string tag(int c, int r, int k)
{
    char b[30];
    sprintf(b, "c%dr%dk%d", c, r, k);
    return b;
}

static void backend(mp::Package &p)
{
    Z_GDU *g = p.request().get();
    unsigned long id = p.session().id();
    std::string ref;
    if (g && g->which == Z_GDU_Z3950)
        ref = zh::get_ref(g->u.z3950);
    else if (g && g->which == Z_GDU_HTTP_Request)
        ref = g->u.HTTP_Request->path + 1;
    int c, r, k;
    {
        mc::NoRace nr;
        if (!g)
        {
            if (!p.session().is_closed())
                mc::fail("empty-package", "a package without request of an open "
                         "session");
            mc::note("close package");
            if (++w->closes[id] > 1)
                mc::fail("close-twice", "the chain was told twice that a "
                         "session closed");
            return;
        }
        if (sscanf(ref.c_str(), "c%dr%dk%d", &c, &r, &k) != 3)
            mc::fail("bad-request", "request %s", ref.c_str());
        mc::note("backend %s", ref.c_str());
        Seen s = { c, r, id };
        for (auto &x : w->seen)
            if (x.conn == c && x.req == r)
                mc::fail("request-twice", "request %s processed twice", ref.c_str());
        w->seen.push_back(s);
        if (w->conn_of.count(id) && w->conn_of[id] != c)
            mc::fail("session-mix", "requests of two connections share a session");
        w->conn_of[id] = c;
        for (auto &x : w->conn_of)
            if (x.second == c && x.first != id)
                mc::fail("session-mix", "requests of connection %d have "
                         "different sessions", c);
    }
    if (k == K_SLOW)
        mc::block_until_timeout([]() { return false; }, mc::now_ms() + 1000, "slow");
    else
        mc::point("backend");
    mp::odr o;
    switch (k)
    {
    case K_OK: case K_SLOW:
        p.response() = o.create_initResponse(g->u.z3950, 0, 0);
        break;
    case K_CLOSE:
        p.response() = o.create_close(g->u.z3950, Z_Close_finished, 0);
        p.session().close();
        break;
    case K_CLOSE_SILENT:
        p.session().close();
        break;
    case K_HTTP:
    {
        Z_GDU *res = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 200);
        res->u.HTTP_Response->content_buf = odr_strdup(o, ref.c_str());
        res->u.HTTP_Response->content_len = (int) ref.size();
        p.response() = res;
        break;
    }
    }
    if (w->stop_now)
    {
        mc::NoRace nr;
        w->stop_now = false;
        w->fe->stop(SIGUSR1);
    }
}

static std::string expect(int c, int r, int k)
{
    std::string t = tag(c, r, k);
    switch (k)
    {
    case K_OK: case K_SLOW: return "init:ok#" + t;
    case K_UNHANDLED: return "close:2:unhandled Z39.50 request#" + t;
    case K_CLOSE: return "close:0:#" + t;
    case K_HTTP: return "http200:" + t;
    case K_HTTP_UNHANDLED: return "http500";
    case K_STAT: return "stat";
    }
    return "";
}

static void send_one(vnet::Conn *c, int ci, int r, int k)
{
    ODR o = odr_createmem(ODR_ENCODE);
    mc::note("client: conn %d sends %s", ci, kname[k]);
    if (k == K_HTTP || k == K_HTTP_UNHANDLED || k == K_STAT)
    {
        Z_GDU *g = zh::http_req(o, k == K_STAT ? "/stat" : "/" + tag(ci, r, k));
        vnet::send(c, g);
    }
    else
        vnet::send(c, zh::init_req(o, tag(ci, r, k)));
    odr_destroy(o);
}

static std::string make_conf(int mn, int mx, const std::string &extra)
{
    return "<filter><port>@:9000</port><threads>" + std::to_string(mn)
        + "</threads><max-threads>" + std::to_string(mx) + "</max-threads>" + extra
        + "</filter>";
}

struct Server {
    yf::FrontendNet fe;
    zh::Fn be;
    mp::RouterChain router;
    Server(const std::string &conf, int duration)
    {
        zh::configure(fe, conf);
        fe.set_listen_duration(duration);
        be.f = backend;
        router.append(fe);
        router.append(be);
    }
    void run()
    {
        mp::Package p;
        p.router(router).move();
    }
};

static void begin()
{
    zh::quiet();
    vnet::reset();
    mc::clock_reset();
    mc::sched_begin();
    w = new World();
    w->running = 0;
    w->stop_now = false;
}
static void end()
{
    delete w;
    w = 0;
    mc::sched_end();
}
static void settle(int ms = 10)
{
    mc::block_until_timeout([]() { return false; }, mc::now_ms() + ms, "settle");
}

struct Plan {
    std::vector<int> kinds;
    int closing;        // 0: at once after sending, 1: after the answers, 2: never
};

static int count_out(vnet::Conn *c, const std::string &what)
{
    int n = 0;
    for (auto &s : c->out)
    {
        std::string d = zh::desc(s);
        if (what == "stat" ? d.substr(0, 13) == "http200:<?xml"
            : what == "http500" ? d.substr(0, 7) == what : d == what)
            n++;
    }
    return n;
}

// what must hold for one connection at the end
static void judge(vnet::Conn *c, int ci, const Plan &p)
{
    if (!c->accepted)
        mc::fail("not-accepted", "connection %d was not accepted", ci);
    if (!c->local_closed)
        mc::fail("connection-left", "connection %d is still open long after its "
                 "end (requests%s)", ci, p.kinds.empty() ? " none" : "");
    size_t answers = 0;
    bool ends = false;       // the chain ended the session
    for (size_t r = 0; r < p.kinds.size(); r++)
    {
        int k = p.kinds[r];
        if (k == K_CLOSE || k == K_CLOSE_SILENT || k == K_UNHANDLED
            || k == K_HTTP_UNHANDLED || k == K_STAT)
            ends = true;
    }
    int st = count_out(c, "stat"), st_max = 0;
    for (size_t r = 0; r < p.kinds.size(); r++)
    {
        int k = p.kinds[r];
        if (k == K_STAT)
        {
            st_max++;
            ends = true;
            continue;
        }
        bool seen = false;
        for (auto &s : w->seen)
            if (s.conn == ci && s.req == (int) r)
                seen = true;
        std::string e = expect(ci, (int) r, k);
        int n = e.size() ? count_out(c, e) : 0;
        int max = 0;
        for (int k2 : p.kinds)
            max += expect(ci, 0, k2) == expect(ci, 0, k);
        answers += n && e != "http500" ? n : 0;
        if (n > (e == "http500" ? max : 1))
            mc::fail("answered-twice", "request %d (%s) of connection %d got %d "
                     "answers", (int) r, kname[k], ci, n);
        if (n && !seen && e != "http500")
            mc::fail("answer-from-nowhere", "request never processed was answered");
        // the client waited for everything, so everything has to be there
        if (p.closing && !ends)
        {
            if (!seen)
                mc::fail("request-lost", "request %d (%s) of connection %d never "
                         "reached the chain", (int) r, kname[k], ci);
            if (e.size() && n != 1)
                mc::fail("answer-lost", "request %d (%s) of connection %d got %d "
                         "answers", (int) r, kname[k], ci, n);
        }
        // the request that ends the session is answered as well, if the client
        // waits
        if (p.closing && ends && seen && e.size() && n == 0 && e != "http500")
            mc::fail("answer-lost", "processed request %d (%s) of connection %d "
                     "got no answer", (int) r, kname[k], ci);
    }
    // the statistics are answered by the front end itself, which then ends the
    // session
    if (st > st_max || (st_max == 1 && p.closing && !st && (p.kinds.size() == 1
        || p.kinds[0] == K_STAT || p.kinds[0] == K_SLOW)))
        mc::fail("answer-lost", "%d statistics requests, %d answers", st_max, st);
    answers += st;
    int h500 = count_out(c, "http500"), s500 = 0;
    for (auto &s : w->seen)
        if (s.conn == ci && p.kinds[s.req] == K_HTTP_UNHANDLED)
            s500++;
    if (h500 > s500 || (p.closing && h500 != s500))
        mc::fail("answer-lost", "%d unhandled HTTP requests, %d error answers", s500,
                 h500);
    if (c->out.size() != answers + h500)
    {
        std::string s;
        for (auto &x : c->out)
            s += zh::desc(x) + " ";
        mc::fail("foreign-answer", "connection %d received something that is not "
                 "an answer to its requests: %s", ci, s.c_str());
    }
}

static void judge_sessions(size_t n)
{
    if (w->closes.size() != n)
        mc::fail("close-not-told", "%d sessions were opened but the chain was told "
                 "of the end of %d", (int) n, (int) w->closes.size());
    for (auto &x : w->conn_of)
        if (w->closes[x.first] != 1)
            mc::fail("close-not-told", "the chain was not told that the session of "
                     "connection %d ended", x.second);
}

// up to two connections, requests and disconnects in every order relative to
// the workers
MC_SCENARIO(front_run, 0)
{
    begin();
    int nc = mc::param("conns", 2), nr = mc::param("reqs", 2);
    int slow_timeout = mc::param("timeout", 300);
    Plan plan[4];
    for (int i = 0; i < nc; i++)
    {
        int n = i == 0 ? mc::choose(nr + 1) : 1;
        for (int j = 0; j < n; j++)
            plan[i].kinds.push_back(i == 0 ? mc::choose(K_MAX) : K_OK);
        plan[i].closing = mc::choose(3);
    }
    std::string out;
    {
        Server s(make_conf(1, mc::param("max", 2), "<timeout>"
                           + std::to_string(slow_timeout) + "</timeout>"
                           "<stat-req>/stat</stat-req><connect-total>" + std::to_string(nc + 1)
                           + "</connect-total>"), 3000);
        mc::calm(true);
        int t = mc::spawn([&]() {
            vnet::Conn *c[5];
            settle();
            mc::calm(false);
            for (int i = 0; i < nc; i++)
            {
                c[i] = vnet::dial("@:9000", "tcp:1.2.3.4");
                for (size_t r = 0; r < plan[i].kinds.size(); r++)
                {
                    send_one(c[i], i, (int) r, plan[i].kinds[r]);
                    mc::point("sent");
                }
                if (plan[i].closing == 0)
                {
                    mc::note("client: conn %d closed", i);
                    vnet::remote_close(c[i]);
                }
            }
            settle(5000);
            for (int i = 0; i < nc; i++)
                for (int k : plan[i].kinds)
                    if ((k == K_CLOSE || k == K_CLOSE_SILENT || k == K_UNHANDLED
                         || k == K_HTTP_UNHANDLED || k == K_STAT) && !c[i]->local_closed)
                        mc::fail("ended-not-closed", "the session of connection %d "
                                 "was ended but the connection stays open", i);
            for (int i = 0; i < nc; i++)
                if (plan[i].closing == 1)
                    vnet::remote_close(c[i]);
            settle(1000);
            mc::calm(true);
            settle(1000 * 1000);
            for (int i = 0; i < nc; i++)
                if (!c[i]->local_closed)
                    mc::fail("connection-left", "connection %d is still open long "
                             "after its end", i);
            // by now nobody is connected: the next ones fit under the limit
            for (int i = 0; i < nc + 1; i++)
            {
                vnet::Conn *x = vnet::dial("@:9000", "tcp:1.2.3.4");
                settle();
                if (!x->accepted)
                    mc::fail("peer-leak", "a connection that is gone still counts "
                             "against connect-total");
                c[i] = x;
            }
            for (int i = 0; i < nc + 1; i++)
                vnet::remote_close(c[i]);
            settle();
            mc::NoRace nr;
            for (int i = 0; i < nc; i++)
                judge(vnet::conns[i], i, plan[i]);
            judge_sessions(2 * nc + 1);
        });
        s.run();
        mc::join(t);
    }
    mc::NoRace nr2;
    for (int i = 0; i < nc; i++)
    {
        for (auto &x : vnet::conns[i]->out)
            out += zh::desc(x).substr(0, 12) + " ";
        out += "| ";
    }
    mc::evaluated();
    mc::outcome(out);
    mc::state(out + std::to_string(w->seen.size()));
    end();
}

// graceful stop: no new connections, running sessions are served to the end
MC_SCENARIO(front_drain, 0)
{
    begin();
    int nr = mc::param("reqs", 2);
    Plan plan[2];
    for (int i = 0; i < 2; i++)
    {
        int n = i ? 1 : mc::choose(nr) + 1;
        for (int j = 0; j < n; j++)
            plan[i].kinds.push_back(mc::choose(2) ? K_SLOW : K_OK);
        plan[i].closing = 1 + mc::choose(2);
    }
    bool returned = false;
    {
        Server s(make_conf(1, 2, "<timeout>60</timeout>"), 0);
        w->fe = &s.fe;
        mc::calm(true);
        int t = mc::spawn([&]() {
            vnet::Conn *c[3];
            settle();
            mc::calm(false);
            for (int i = 0; i < 2; i++)
                c[i] = vnet::dial("@:9000", "tcp:1.2.3.4");
            mc::block_until([&]() { return c[0]->accepted && c[1]->accepted; },
                            "accepted");
            { mc::NoRace nr; w->stop_now = true; }
            for (int i = 0; i < 2; i++)
                for (size_t r = 0; r < plan[i].kinds.size(); r++)
                    send_one(c[i], i, (int) r, plan[i].kinds[r]);
            settle(5000);
            c[2] = vnet::dial("@:9000", "tcp:1.2.3.4");
            settle();
            if (c[2] && c[2]->accepted)
                mc::fail("accepts-after-stop", "a connection was accepted after the "
                         "server was told to stop");
            for (int i = 0; i < 2; i++)
                if (plan[i].closing == 1)
                    vnet::remote_close(c[i]);
            settle(10 * 1000);
            mc::calm(true);
            settle(200 * 1000);
            mc::NoRace nr;
            if (!returned)
                mc::fail("stop-hangs", "all sessions ended but the server goes on");
            for (int i = 0; i < 2; i++)
                judge(c[i], i, plan[i]);
        });
        s.run();
        { mc::NoRace nr; returned = true; }
        mc::join(t);
    }
    mc::evaluated();
    std::string out;
    {
        mc::NoRace nr;
        for (int i = 0; i < 2; i++)
            for (auto &x : vnet::conns[i]->out)
                out += zh::desc(x).substr(0, 14) + " ";
    }
    mc::outcome(out);
    mc::state(out);
    end();
}

// limits: histories of connecting, requesting and leaving
MC_SCENARIO(front_limits, 0)
{
    begin();
    int depth = mc::param("depth", 4);
    int total_a = mc::choose(3), max_a = 2 + mc::choose(2), hmax = 1 + mc::choose(2);
    bool stat = mc::choose(2);
    std::string conf = make_conf(1, 1, "<timeout ip=\"2.*\">20</timeout>"
        + std::string(total_a ? "<connect-total ip=\"1.*\">"
                      + std::to_string(total_a) + "</connect-total>" : "")
        + "<connect-max ip=\"1.*\">" + std::to_string(max_a) + "</connect-max>"
        + "<http-req-max ip=\"1.*\">" + std::to_string(hmax) + "</http-req-max>"
        + (stat ? "<stat-req>/stat</stat-req>" : ""));
    std::string out;
    {
        Server s(conf, 3600);
        mc::calm(true);
        int t = mc::spawn([&]() {
            settle();
            struct C { vnet::Conn *c; bool open; int nreq; int64_t last; char peer; };
            std::vector<C> cs;
            std::vector<int64_t> dials, hreqs;     // of peer 1.x
            int sessions = 0;
            for (int d = 0; d < depth; d++)
            {
                int op = mc::choose(7);
                int64_t now = mc::now_ms();
                int live = 0;
                C *first = 0, *last = 0;
                for (auto &x : cs)
                {
                    // idle connections of the second peer go after 20 s, of
                    // the first after 300
                    if (x.open && now - x.last >= (x.peer == '2' ? 20000 : 300000))
                    {
                        x.open = false;
                        if (!x.c->local_closed)
                            mc::fail("no-timeout", "idle connection left open");
                    }
                    if (x.open && x.peer == '1')
                        live++;
                    if (x.open && !first)
                        first = &x;
                    if (x.open)
                        last = &x;
                    if (x.open && x.c->local_closed)
                        mc::fail("closed-early", "open connection was closed");
                }
                auto recent = [&](std::vector<int64_t> &v) {
                    int n = 0;
                    for (auto x : v)
                        if (now - x < 59000)
                            n++;
                        else if (now - x < 61000)
                            mc::fail("harness:edge", "ambiguous time");
                    return n;
                };
                if (op < 2)
                {
                    char pc = op ? '2' : '1';
                    vnet::Conn *c = vnet::dial("@:9000", op ? "tcp:2.0.0.1"
                                               : "tcp:1.2.3.4");
                    settle();
                    bool want = op || ((!total_a || live < total_a)
                                       && recent(dials) < max_a);
                    out += want ? "+" : "-";
                    if (c->accepted != want)
                        mc::fail(want ? "refused" : "limit-ignored",
                                 "connection from %s was %s (open %d, recent %d; "
                                 "total %d max %d)", c->peer.c_str(),
                                 c->accepted ? "accepted" : "refused", live,
                                 recent(dials), total_a, max_a);
                    if (!want && !c->local_closed)
                        mc::fail("refused-open", "refused connection left open");
                    if (want)
                    {
                        C n = { c, true, 0, now, pc };
                        cs.push_back(n);
                        sessions++;
                        if (!op)
                            dials.push_back(now);
                    }
                }
                else if (op == 2 || op == 6)
                {
                    C *x = op == 2 ? first : last;
                    if (!x)
                    {
                        mc::vacuous();
                        continue;
                    }
                    vnet::remote_close(x->c);
                    settle();
                    x->open = false;
                    if (!x->c->local_closed)
                        mc::fail("connection-left", "connection not closed after the "
                                 "client left");
                }
                else if (op == 3 || op == 5)
                {
                    if (!last)
                        continue;
                    bool st = op == 5;
                    ODR o = odr_createmem(ODR_ENCODE);
                    int ci = (int) (last - &cs[0]);
                    std::string t = tag(ci, last->nreq++, K_HTTP);
                    Z_GDU *g = zh::http_req(o, st && stat ? "/stat" : "/" + t);
                    if (last->peer == '1')
                        z_HTTP_header_add(o, &g->u.HTTP_Request->headers,
                                          "X-Forwarded-For", "2.9.9.9");
                    vnet::send(last->c, g);
                    odr_destroy(o);
                    settle();
                    std::string got = last->c->out.empty() ? "nothing"
                        : zh::desc(last->c->out.back());
                    int nout = (int) last->c->out.size();
                    if (nout != last->nreq)
                        mc::fail("answers", "%d requests, %d answers", last->nreq,
                                 nout);
                    if (st && stat)
                    {
                        out += "s";
                        if (got.find("http200:<?xml") != 0
                            || got.find("<frontend_net>") == std::string::npos)
                            mc::fail("stat", "statistics request answered with %s",
                                     got.c_str());
                        last->open = false;
                        if (!last->c->local_closed)
                            mc::fail("connection-left", "connection open after "
                                     "statistics");
                    }
                    else if (last->peer == '1' && recent(hreqs) >= hmax)
                    {
                        out += "x";
                        if (got.substr(0, 7) != "http500")
                            mc::fail("limit-ignored", "request over http-req-max "
                                     "answered with %s", got.c_str());
                        last->open = false;
                        if (!last->c->local_closed)
                            mc::fail("connection-left", "connection open after its "
                                     "request was refused");
                    }
                    else
                    {
                        out += "h";
                        if (got != "http200:" + t)
                            mc::fail("answer", "request answered with %s",
                                     got.c_str());
                        if (last->peer == '1')
                            hreqs.push_back(now);
                        last->last = now;
                    }
                }
                else
                {
                    out += "t";
                    settle(35 * 1000);
                }
            }
            settle(400 * 1000);
            for (auto &x : cs)
                if (!x.c->local_closed)
                    mc::fail("no-timeout", "idle connection left open");
            mc::NoRace nr;
            judge_sessions(sessions);
        });
        s.run();
        mc::join(t);
    }
    mc::evaluated();
    mc::outcome(out);
    mc::state(out);
    end();
}

// what HTTP clients send is what the route sees, and the other way
struct Http {
    std::string method, path, version, conn, body, bytes;
    std::string answer;     // body of the answer
    int code;
};

static const char *const hbodies[] = { "", "x", "a\r\n\r\nb&<" };

static Http pick_http(int i)
{
    static const char *const methods[] = { "GET", "POST", "HEAD", "DELETE" };
    static const char *const hpaths[] = { "/", "/a%20b?c=d&e", "http://h/p", "*" };
    static const char *const cons[] = { "", "close", "Keep-Alive" };
    static const int codes[] = { 200, 404, 302 };
    Http h;
    h.method = methods[i ? 1 : mc::choose(4)];
    h.path = hpaths[i ? 1 : mc::choose(4)];
    h.version = !i && mc::flip() ? "1.0" : "1.1";
    h.conn = cons[mc::choose(i ? 2 : 3)];
    h.code = codes[mc::choose(i ? 1 : 3)];
    h.answer = i || mc::flip() ? std::string("p\0q", 3) : "";
    h.bytes = h.method + " " + h.path + " HTTP/" + h.version + "\r\nHost: me\r\nX-A: 1\r\n";
    if (h.conn.size())
        h.bytes += "Connection: " + h.conn + "\r\n";
    // 0: no body, 1, 2: told by its length, 3..: in chunks
    int b = mc::choose(h.version == "1.1" ? 5 : 3);
    h.body = hbodies[b == 0 ? 0 : b < 3 ? b : b - 2];
    if (b == 1 || b == 2)
        h.bytes += "content-length: " + std::to_string(h.body.size()) + "\r\nX-B: \r\n\r\n"
            + h.body;
    else if (b)
    {
        char len[20];
        h.bytes += "transfer-encoding: chunked\r\n\r\n";
        size_t first = mc::flip() ? 1 : h.body.size();
        sprintf(len, "%x\r\n", (int) first);
        h.bytes += len + h.body.substr(0, first) + "\r\n";
        if (first < h.body.size())
        {
            sprintf(len, "%x\r\n", (int) (h.body.size() - first));
            h.bytes += len + h.body.substr(first) + "\r\n";
        }
        h.bytes += "0\r\n\r\n";
    }
    else
        h.bytes += "\r\n";
    return h;
}

MC_SCENARIO(front_http, 0)
{
    begin();
    int n = mc::param("reqs", 2);
    bool calm_http = mc::flip();        // answered within the route, or not at all
    std::vector<Http> plan;
    for (int i = 0; i < n; i++)
        plan.push_back(pick_http(i));
    size_t seen = 0;
    std::string out;
    {
        Server s(make_conf(1, 1, "<timeout>60</timeout>"), 600);
        s.be.f = [&](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g)
                return;
            mc::NoRace nr;
            if (g->which != Z_GDU_HTTP_Request || seen >= plan.size())
                mc::fail("request", "unexpected request");
            Z_HTTP_Request *r = g->u.HTTP_Request;
            const Http &h = plan[seen++];
            std::string b(r->content_buf ? r->content_buf : "", r->content_len);
            const char *c = z_HTTP_header_lookup(r->headers, "Connection");
            const char *a = z_HTTP_header_lookup(r->headers, "X-A");
            if (r->method != h.method || r->path != h.path || r->version != h.version
                || (c ? c : "") != h.conn || !a || strcmp(a, "1"))
                mc::fail("request", "%s was passed on as %s %s HTTP/%s", h.bytes.c_str(),
                         r->method, r->path, r->version);
            if (b != h.body)
                mc::fail("request-body", "body of %s passed on as %s", h.bytes.c_str(),
                         b.c_str());
            if (!calm_http)
                return;
            mp::odr o;
            Z_GDU *res = o.create_HTTP_Response(p.session(), r, h.code);
            Z_HTTP_Response *hr = res->u.HTTP_Response;
            z_HTTP_header_add(o, &hr->headers, "X-R", h.path.c_str());
            hr->content_len = (int) h.answer.size();
            hr->content_buf = (char *) odr_malloc(o, h.answer.size() + 1);
            memcpy(hr->content_buf, h.answer.data(), h.answer.size());
            p.response() = res;
        };
        mc::calm(true);
        int t = mc::spawn([&]() {
            settle();
            vnet::Conn *c = vnet::dial("@:9000", "tcp:1.2.3.4");
            settle();
            size_t answered = 0;
            for (auto &h : plan)
            {
                if (c->local_closed)
                    break;
                vnet::send(c, h.bytes);
                settle();
                mc::NoRace nr;
                std::string got = c->out.empty() ? "" : c->out.back();
                if (c->out.size() != ++answered || seen != answered)
                    mc::fail("answers", "%d requests, %d passed on, %d answers",
                             (int) answered, (int) seen, (int) c->out.size());
                ODR o = odr_createmem(ODR_DECODE);
                Z_GDU *g = vnet::decode(got, o);
                if (!g || g->which != Z_GDU_HTTP_Response)
                    mc::fail("answer", "answered with %s", got.c_str());
                Z_HTTP_Response *r = g->u.HTTP_Response;
                const char *x = z_HTTP_header_lookup(r->headers, "X-R");
                int code = calm_http ? h.code : 500;
                std::string b(r->content_buf ? r->content_buf : "", r->content_len);
                if (r->code != code || (calm_http && (!x || x != h.path
                                                      || b != h.answer)))
                    mc::fail("answer", "%s answered with %s", h.bytes.c_str(),
                             got.c_str());
                bool close = !calm_http || h.conn == "close"
                    || (h.version == "1.0" && h.conn != "Keep-Alive");
                if (c->local_closed != close)
                    mc::fail("keep-alive", "connection %s after %s",
                             close ? "left open" : "closed", h.bytes.c_str());
                out += std::to_string(r->code) + (close ? "c" : "k")
                    + std::to_string(h.body.size());
                odr_destroy(o);
            }
            if (!c->local_closed)
                vnet::remote_close(c);
        });
        s.run();
        mc::join(t);
    }
    mc::evaluated();
    mc::outcome(out);
    mc::state(out);
    end();
}
