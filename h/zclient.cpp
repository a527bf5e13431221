// The Z39.50 client: one backend connection per session.
// ONLY: filter_z3950_client package session origin filter util xmlutil router_chain gduutil
#include "zh.hpp"
#include "filter_z3950_client.hpp"

enum { B_OK, B_SILENT, B_DROP, B_DIAG, B_CLOSE, B_N };

struct Backend {
    std::function<int(vnet::Conn *, const std::string &)> behaviour;
    std::vector<std::pair<int, std::string> > got;  // connection, request
};
static Backend *be;

static std::string search_diag(const std::string &host)
{
    return host;
}

// answer of the backend to one PDU
static std::string answer(Z_GDU *g, int b, ODR o)
{
    mp::odr m;
    Z_APDU *a = g->u.z3950, *r = 0;
    if (b == B_CLOSE)
        return vnet::encode(m.create_close(a, Z_Close_costLimit, "bye"));
    switch (a->which)
    {
    case Z_APDU_initRequest:
        r = m.create_initResponse(a, b == B_DIAG ? 1014 : 0, b == B_DIAG ? "no" : 0);
        break;
    case Z_APDU_searchRequest:
        r = m.create_searchResponse(a, b == B_DIAG ? 114 : 0,
                                    b == B_DIAG ? "use" : 0);
        if (b == B_OK)
            *r->u.searchResponse->resultCount = 7;
        break;
    case Z_APDU_presentRequest:
        r = m.create_presentResponse(a, b == B_DIAG ? 13 : 0, 0);
        if (b == B_OK)
        {
            r->u.presentResponse->records =
                zh::recs(m, { zh::rec(m, "db", "<r/>") });
            *r->u.presentResponse->numberOfRecordsReturned = 1;
        }
        break;
    case Z_APDU_scanRequest:
        r = m.create_scanResponse(a, b == B_DIAG ? 228 : 0, 0);
        break;
    case Z_APDU_close:
        r = m.create_close(a, Z_Close_finished, 0);
        break;
    default:
        return "";
    }
    return vnet::encode(r);
}

static void backend_pdu(vnet::Conn *c)
{
    ODR o = odr_createmem(ODR_DECODE);
    Z_GDU *g = vnet::decode(c->out.back(), o);
    std::string d = zh::desc(g);
    be->got.push_back(std::make_pair(c->id, d));
    mc::note("backend %d gets %s", c->id, d.c_str());
    int b = be->behaviour(c, d);
    if (b == B_DROP)
        vnet::remote_close(c);
    else if (b != B_SILENT)
    {
        std::string s = answer(g, b, o);
        if (s.size())
            vnet::send(c, s);
    }
    odr_destroy(o);
}

static std::string expected(const std::string &kind, int b, const std::string &ref,
                            const std::string &host)
{
    std::string r = "#" + ref, h = "(backend=" + host + ")";
    if (b == B_CLOSE)
        return "close:3:bye" + r;
    if (b == B_DROP)
        return "close:8:" + r + "!closed";
    if (kind == "init")
        return (b == B_DIAG ? "init:fail:1014:no " + h : "init:ok") + r;
    if (kind == "search")
        return b == B_DIAG ? "search:0:fail:ret0:next0:d:114:use " + h + r
            : "search:7:ok:ret0:next0:none" + r;
    if (kind == "present")
        return b == B_DIAG ? "present:st5:ret0:next0:d:13:" + h + r
            : "present:st0:ret1:next0:recs([db]<r/>)" + r;
    if (kind == "scan")
        return b == B_DIAG ? "scan:st6:n0:pos-:!d:228:" + r : "scan:st0:n0:pos-:" + r;
    return "close:0:" + r;
}

// all histories of two sessions, with backend faults
MC_SCENARIO(zc_seq, 0)
{
    zh::quiet();
    vnet::reset();
    mc::clock_reset();
    static Backend backend;
    be = &backend;
    be->got.clear();
    int depth = mc::param("depth", 3);
    int target = mc::choose(3);          // 0 none, 1 default, 2 forced
    bool fc = mc::choose(2), bind = mc::choose(2, mc::FAULT), cip =
        mc::choose(2, mc::FAULT);
    int connect_mode = 0;
    vnet::on_connect = [&](vnet::Conn *c) {
        connect_mode = mc::choose(4, mc::FAULT);
        mc::note("connect %s mode %d", c->host.c_str(), connect_mode);
        if (connect_mode == 1)
            return -1;                   // refused at once
        c->connect = connect_mode == 2 ? -1 : connect_mode == 3 ? 0 : 1;
        return 0;
    };
    int last_b = -1;
    be->behaviour = [&](vnet::Conn *c, const std::string &d) {
        last_b = mc::choose(B_N, mc::FAULT);
        if (d.substr(0, 6) == "close:" && last_b == B_DIAG)
            last_b = B_OK;
        return last_b;
    };
    vnet::on_output = backend_pdu;
    std::string out;
    {
        yf::Z3950Client f;
        int tail_hits = 0;
        zh::Fn tail([&](mp::Package &p) { tail_hits++; });
        mp::RouterChain r;
        r.append(f);
        r.append(tail);
        zh::configure(f, std::string("<f><timeout>20</timeout><connect-timeout>5"
            "</connect-timeout><init-timeout>7</init-timeout>")
            + (target == 1 ? "<default_target>def:210</default_target>" : "")
            + (target == 2 ? "<force_target>force:210</force_target>" : "")
            + (fc ? "<force_close>true</force_close>" : "")
            + (bind ? "<bind_host>true</bind_host>" : "")
            + (cip ? "<client_ip>1</client_ip>" : "") + "</f>");
        struct S { zh::Client *c; int conn; bool open; std::string host; bool gone;
                   bool sent_close; int id_phase; };
        std::vector<S> ss;
        for (int i = 0; i < 2; i++)
        {
            S s = { new zh::Client(r, i ? "2.2.2.2 l2:9000" : "1.1.1.1 l1:9000"),
                    -1, false, "", false, false, 0 };
            ss.push_back(s);
        }
        for (int d = 0; d < depth; d++)
        {
            int si = mc::choose(2);
            if (d == 0 && si)
                return mc::vacuous();    // symmetric
            S &s = ss[si];
            int op = mc::choose(8);
            ODR o = odr_createmem(ODR_ENCODE);
            char ref[20];
            sprintf(ref, "s%dd%d", si, d);
            size_t nconn = vnet::conns.size(), ngot = be->got.size();
            int64_t t0 = mc::now_ms();
            last_b = -1;
            connect_mode = 0;
            std::string kind, got, want, pdu;
            Z_APDU *a = 0;
            std::string vhost = op == 1 ? "vh:210" : op == 2 ? "" : "";
            if (s.gone)
            {   // the client has left: nothing can come
                odr_destroy(o);
                continue;
            }
            switch (op)
            {
            case 0: case 1:
                kind = "init";
                a = zh::init_req(o, ref, vhost);
                pdu = "initreq#" + std::string(ref);
                break;
            case 2:
                kind = "search";
                a = zh::search_req(o, "@attr 1=4 a", "rs", zh::v("db", "db2"), true,
                                   ref);
                break;
            case 3:
                kind = "present";
                a = zh::present_req(o, "rs", 2, 3, 0, 0, ref);
                break;
            case 4:
                kind = "scan";
                a = zh::scan_req(o, "db", "t", 5, 2, ref);
                break;
            case 5:
                kind = "close";
                a = mp::odr(ODR_ENCODE).create_close(0, Z_Close_finished, 0);
                {
                    a = zget_APDU(o, Z_APDU_close);
                    zh::set_ref(o, a, ref);
                }
                break;
            case 6:     // HTTP is for somebody else
            {
                int h = tail_hits;
                std::string g = s.c->send(zh::http_req(o, "/x"));
                if (!s.open && tail_hits != h + 1)
                    mc::fail("http", "HTTP request not passed on");
                if (be->got.size() != ngot || vnet::conns.size() != nconn)
                    mc::fail("http", "HTTP request reached a Z39.50 backend");
                odr_destroy(o);
                out += "w";
                continue;
            }
            case 7:     // the client goes away
            {
                if (s.conn >= 0 && s.open && vnet::conns[s.conn]->local_closed)
                    mc::fail("early-close", "backend connection closed too early");
                s.c->close();
                s.gone = true;
                if (s.conn >= 0 && !vnet::conns[s.conn]->local_closed)
                    mc::fail("not-closed", "session ended but its backend "
                             "connection stays open");
                std::string cl;
                for (size_t i = ngot; i < be->got.size(); i++)
                    cl += be->got[i].second + ";";
                std::string wcl = fc && s.open && !s.sent_close
                    ? "close:0:z3950_client;" : "";
                if (cl != wcl)
                    mc::fail("force-close", "on close the backend got '%s'",
                             cl.c_str());
                s.open = false;
                odr_destroy(o);
                out += "q";
                continue;
            }
            }
            if (pdu.empty())
            {
                Z_GDU g;
                g.which = Z_GDU_Z3950;
                g.u.z3950 = a;
                pdu = zh::desc(&g);
            }
            std::string host = target == 2 ? "force:210" : vhost.size() ? vhost
                : target == 1 ? "def:210" : "";
            got = s.c->send(a);
            bool was_open = s.open;
            int64_t dt = mc::now_ms() - t0;
            std::string conf_host = s.open ? s.host : host;
            bool dead = false;
            if (!s.open)
            {
                if (op > 1)
                {
                    want = std::string("close:6:First PDU was not an Initialize "
                                       "Request#") + ref + "!closed";
                    dead = true;
                }
                else if (host.empty())
                {
                    want = std::string("init:fail:1055:z3950_client: No vhost given#")
                        + ref + "!closed";
                    dead = true;
                }
                else
                {
                    if (vnet::conns.size() != nconn + 1)
                        mc::fail("connect", "%d connections made",
                                 (int) (vnet::conns.size() - nconn));
                    s.conn = vnet::conns.back()->id;
                    s.host = host;
                    std::string h = host;
                    if (bind)
                        h += si ? " l2:9000" : " l1:9000";
                    std::string ch = vnet::conns.back()->host;
                    if (ch != h)
                        mc::fail("host", "connected to '%s' instead of '%s'",
                                 ch.c_str(), h.c_str());
                    if (connect_mode)
                    {
                        want = std::string("close:8:#") + ref + "!closed";
                        dead = true;
                        if (connect_mode == 3 ? dt < 4500 || dt > 6500 : dt > 500)
                            mc::fail("timing", "failing connection took %ld ms",
                                     (long) dt);
                    }
                    else
                        s.open = true;
                }
            }
            if (vnet::conns.size() != nconn + ((!was_open && s.open)
                || connect_mode ? 1 : 0))
                mc::fail("connect", "unexpected backend connection");
            if (!dead)
            {
                if (be->got.size() != ngot + 1 || be->got.back().first != s.conn)
                    mc::fail("relay", "request not relayed once on the connection "
                             "of its session");
                if (be->got.back().second != pdu)
                    mc::fail("relay", "relayed %s instead of %s",
                             be->got.back().second.c_str(), pdu.c_str());
                // client address, vhost
                {
                    ODR od = odr_createmem(ODR_DECODE);
                    Z_GDU *g = vnet::decode(vnet::conns[s.conn]->out.back(), od);
                    if (op < 2)
                    {
                        Z_OtherInformation **oi =
                            &g->u.z3950->u.initRequest->otherInfo;
                        const char *ip = yaz_oi_get_string_oid(
                            oi, yaz_oid_userinfo_client_ip, 1, 0);
                        std::string wip = cip ? (si ? "2.2.2.2" : "1.1.1.1") : "";
                        if (std::string(ip ? ip : "") != wip)
                            mc::fail("client-ip", "client address sent: %s",
                                     ip ? ip : "none");
                        const char *vh = yaz_oi_get_string_oid(
                            oi, yaz_oid_userinfo_proxy, 1, 0);
                        if (vh && target != 2 && !was_open)
                            mc::fail("vhost", "vhost passed to the backend");
                    }
                    odr_destroy(od);
                }
                if (last_b == B_SILENT)
                {
                    // an unanswered first Init is given up after the init
                    // timeout, anything later after the general one
                    bool est = was_open && s.id_phase;
                    int lim = est ? 20000 : 7000;
                    want = std::string(est ? "close:7:#" : "close:8:#") + ref
                        + "!closed";
                    if (dt < lim - 500 || dt > lim + 1500)
                        mc::fail("timing", "silent backend given up after %ld ms "
                                 "(limit %d)", (long) dt, lim);
                    dead = true;
                }
                else
                {
                    want = expected(kind, last_b, ref, s.host);
                    if (dt > 100)
                        mc::fail("timing", "answer took %ld ms", (long) dt);
                    if (last_b == B_DROP)
                        dead = true;
                    else if (kind == "init" && last_b != B_CLOSE)
                        s.id_phase = 1;
                }
                if (kind == "close")
                    s.sent_close = true;
            }
            else if (be->got.size() != ngot)
                mc::fail("relay", "request sent although the session failed");
            if (got != want)
                mc::fail("answer:" + kind, "request %s answered with %s, expected %s",
                         pdu.c_str(), got.c_str(), want.c_str());
            if (dead)
            {
                if (s.conn >= 0 && !vnet::conns[s.conn]->local_closed)
                    mc::fail("not-closed", "failed session keeps its backend "
                             "connection");
                // the front end reports the end of the session
                s.c->close();
                s.gone = true;
                s.open = false;
            }
            out += got + " ";
            odr_destroy(o);
            mc::evaluated();
        }
        for (auto &s : ss)
        {
            if (!s.gone)
                s.c->close();
            if (s.conn >= 0 && !vnet::conns[s.conn]->local_closed)
                mc::fail("not-closed", "session ended but its backend connection "
                         "stays open");
            delete s.c;
        }
    }
    for (auto c : vnet::conns)
        if (!c->local_closed)
            mc::fail("not-closed", "backend connection left at the end");
    mc::outcome(out);
    mc::state(out);
}

// concurrent sessions and pipelined requests, limited number of sockets
static void begin()
{
    static Backend backend;
    be = &backend;
    zh::quiet();
    vnet::reset();
    mc::clock_reset();
    be->got.clear();
    mc::sched_begin();
}

MC_SCENARIO(zc_sockets, 0)
{
    begin();
    int n = mc::param("sessions", 2), max = mc::param("sockets", 1);
    int drop = mc::choose(2);            // one backend never answers a search
    std::string res[4];
    {
        yf::Z3950Client f;
        mp::RouterChain r;
        r.append(f);
        zh::configure(f, "<f><max-sockets>" + std::to_string(max)
                      + "</max-sockets><timeout>20</timeout></f>");
        vnet::on_connect = [&](vnet::Conn *c) {
            mc::NoRace nr;
            c->connect = 1;
            int open = 0;
            for (auto x : vnet::conns)
                if (!x->local_closed && x->host == c->host)
                    open++;
            if (open > max)
                mc::fail("max-sockets", "%d connections to one target", open);
            return 0;
        };
        be->behaviour = [&](vnet::Conn *, const std::string &d) -> int {
            return drop && d.substr(0, 7) == "searchr" && d.find("#s0") !=
                std::string::npos ? B_SILENT : B_OK;
        };
        vnet::on_output = [&](vnet::Conn *c) { mc::NoRace nr; backend_pdu(c); };
        std::vector<int> t;
        std::vector<zh::Client *> cl;
        for (int i = 0; i < n; i++)
            cl.push_back(new zh::Client(r));
        for (int i = 0; i < n; i++)
            t.push_back(mc::spawn([&, i]() {
                ODR o = odr_createmem(ODR_ENCODE);
                char ref[20];
                sprintf(ref, "s%d", i);
                std::string x = cl[i]->send(zh::init_req(o, ref, "vh:210"));
                bool ok = x == std::string("init:ok#") + ref;
                if (!ok && x != std::string("init:fail:2:z3950_client: max sessions#")
                    + ref + "!closed")
                    mc::fail("answer:init", "Init answered with %s", x.c_str());
                if (ok)
                {
                    std::string y = cl[i]->send(zh::search_req(o, "a", "rs",
                                                zh::v("db"), true, ref));
                    std::string want = drop && i == 0
                        ? std::string("close:7:#") + ref + "!closed"
                        : std::string("search:7:ok:ret0:next0:none#") + ref;
                    if (y != want)
                        mc::fail("answer:search", "search answered with %s",
                                 y.c_str());
                }
                cl[i]->close();
                mc::NoRace nr;
                res[i] = ok ? "ok" : "max";
                odr_destroy(o);
            }));
        for (int i = 0; i < n; i++)
            mc::join(t[i]);
        mc::NoRace nr;
        int ok = 0;
        for (int i = 0; i < n; i++)
        {
            delete cl[i];
            ok += res[i] == "ok";
        }
        if (ok < 1)
            mc::fail("nobody", "no session at all got a connection");
        if (n <= max && ok != n)
            mc::fail("refused", "session refused below the limit");
        for (auto c : vnet::conns)
            if (!c->local_closed)
                mc::fail("not-closed", "backend connection left at the end");
    }
    std::string out;
    for (int i = 0; i < n; i++)
        out += res[i] + " ";
    mc::evaluated();
    mc::outcome(out);
    mc::state(out);
    mc::sched_end();
}

// several requests of one session at the same time, perhaps while it ends
MC_SCENARIO(zc_pipeline, 0)
{
    begin();
    int n = mc::param("reqs", 2);
    bool leave = mc::choose(2);
    int fault = mc::choose(3);       // of the first search: ok, silent, drop
    std::string res[4];
    {
        yf::Z3950Client f;
        mp::RouterChain r;
        r.append(f);
        zh::configure(f, "<f><timeout>20</timeout></f>");
        int outstanding = 0;
        vnet::on_connect = [&](vnet::Conn *c) { c->connect = 1; return 0; };
        be->behaviour = [&](vnet::Conn *, const std::string &d) -> int {
            if (fault && d.find("#r0") != std::string::npos)
                return (int) (fault == 1 ? B_SILENT : B_DROP);
            return (int) B_OK;
        };
        vnet::on_output = [&](vnet::Conn *c) { mc::NoRace nr; backend_pdu(c); };
        zh::Client cl(r);
        {
            ODR o = odr_createmem(ODR_ENCODE);
            cl.send(zh::init_req(o, "i", "vh:210"));
            odr_destroy(o);
        }
        std::vector<int> t;
        for (int i = 0; i < n; i++)
            t.push_back(mc::spawn([&, i]() {
                ODR o = odr_createmem(ODR_ENCODE);
                char ref[20];
                sprintf(ref, "r%d", i);
                mp::Package p(cl.session, cl.origin);
                Z_GDU g;
                g.which = Z_GDU_Z3950;
                g.u.z3950 = i == 1 ? zh::present_req(o, "rs", 1, 1, 0, 0, ref)
                    : zh::search_req(o, "a", "rs", zh::v("db"), true, ref);
                p.request() = yazpp_1::GDU(&g);
                p.router(r);
                p.move();
                std::string x = zh::desc(p.response().get());
                if (p.session().is_closed())
                    x += "!closed";
                std::string want = expected(i == 1 ? "present" : "search",
                                            fault && i == 0 ? B_DROP : B_OK, ref,
                                            "vh:210");
                if (fault == 1 && i == 0)
                    want = std::string("close:7:#") + ref + "!closed";
                bool ended = leave || fault;
                // once the session has ended requests may stay unanswered
                if (x != want && !(ended && (x == "-" || x.substr(0, 6) == "close:")))
                    mc::fail("answer", "request %s answered with %s", ref, x.c_str());
                mc::NoRace nr;
                res[i] = x.substr(0, 8);
                odr_destroy(o);
            }));
        if (leave)
        {
            mp::Session s2 = cl.session;
            s2.close();
            mp::Package p(s2, cl.origin);
            p.router(r);
            p.move();
        }
        for (int i = 0; i < n; i++)
            mc::join(t[i]);
        if (!leave)
            cl.close();
        mc::NoRace nr;
        for (auto c : vnet::conns)
            if (!c->local_closed)
                mc::fail("not-closed", "backend connection left at the end");
        if (vnet::conns.size() != 1)
            mc::fail("connect", "the session had %d connections",
                     (int) vnet::conns.size());
    }
    std::string out;
    for (int i = 0; i < n; i++)
        out += res[i] + " ";
    mc::evaluated();
    mc::outcome(out);
    mc::state(out);
    mc::sched_end();
}
