// Searching several targets at once.
// ONLY: filter_multi package session origin filter util xmlutil router_chain
#include "be.hpp"
#include "filter_multi.hpp"

static Z_APDU *init(ODR o, int nb, bool third_db = false, const std::string &ref = "i")
{
    Z_APDU *a = zh::init_req(o, ref, "", "u", "p");
    std::list<std::string> l;
    for (int i = 0; i < nb; i++)
        l.push_back(i == 2 && !third_db ? "h2" : "h" + std::to_string(i) + "/d"
                    + std::to_string(i));
    mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, l);
    return a;
}
// vhost and database as addressed at target i
static std::string vhost(int i)
{
    return i == 2 ? "h2" : "h" + std::to_string(i) + "/d" + std::to_string(i);
}
static std::string db(int i) { return i == 2 ? "c" : "d" + std::to_string(i); }

static std::string rec(int i, const std::string &q, long pos, const char *esn = "")
{
    return "[" + vhost(i) + "]" + db(i) + "/" + q + "/" + std::to_string(pos)
        + "/" + esn;
}
// the merged result set: (target, position)
static std::vector<std::pair<int, int> > merge(const std::vector<long> &c, bool rr)
{
    std::vector<std::pair<int, int> > v;
    if (!rr)
    {
        for (size_t i = 0; i < c.size(); i++)
            for (int k = 1; k <= c[i]; k++)
                v.push_back(std::make_pair((int) i, k));
        return v;
    }
    for (int k = 1; ; k++)
    {
        bool any = false;
        for (size_t i = 0; i < c.size(); i++)
            if (k <= c[i])
            {
                any = true;
                v.push_back(std::make_pair((int) i, k));
            }
        if (!any)
            return v;
    }
}
static long dbno(const std::string &d)
{
    return d == "d0" ? 0 : d == "d1" ? 1 : 2;
}

// order of the records, ranges, records along with the search
MC_SCENARIO(mu_merge, 0)
{
    zh::quiet();
    mc::sched_begin();
    mc::calm(true);
    int nb = 1 + mc::choose(mc::param("targets", 3));
    int maxc = mc::param("count", 2);
    bool rr = mc::choose(2) == 0;
    std::vector<long> c;
    for (int i = 0; i < nb; i++)
        c.push_back(mc::choose(maxc + 1));
    // one target may have many more
    int big = mc::choose(nb + 1);
    if (big < nb)
        c[big] += mc::param("big", 4);
    std::string out;
    {
        zh::Routes r;
        zh::Server server;
        yf::Multi f;
        r.r[""].push_back(&f);
        r.r[""].push_back(&server);
        zh::configure(f, std::string("<f>") + (rr ? "" :
                      "<mergetype>serveorder</mergetype>") + "</f>");
        server.hits = [&](const std::vector<std::string> &d, const std::string &q) {
            return c[dbno(d[0])]; };
        zh::Client cl(r);
        ODR o = odr_createmem(ODR_ENCODE);
        std::string a = cl.send(init(o, nb));
        if (a != "init:ok#i")
            mc::fail("init", "Init answered with %s", a.c_str());
        std::vector<std::pair<int, int> > m = merge(c, rr);
        long total = m.size();
        auto slice = [&](long start, long n, const char *esn) {
            std::string s = "recs(";
            for (long i = start; i < start + n; i++)
                s += (i > start ? "," : "")
                    + rec(m[i - 1].first, "@attrset Bib-1 a", m[i - 1].second, esn);
            return s + ")";
        };
        // records along with the search
        const long pb[][3] = { { 0, 1, 0 }, { 100, 200, 0 }, { 0, 100, 2 },
                               { total, total + 1, 1 }, { 0, total, 2 } };
        int k = mc::choose(mc::param("piggyback", 1) ? 5 : 1);
        bool named = k && mc::choose(2);
        Z_APDU *s = zh::search_req(o, "a", "1", zh::v("c"), true, "s");
        *s->u.searchRequest->smallSetUpperBound = pb[k][0];
        *s->u.searchRequest->largeSetLowerBound = pb[k][1];
        *s->u.searchRequest->mediumSetPresentNumber = pb[k][2];
        auto set = [&](const char *n) {
            Z_ElementSetNames *e = (Z_ElementSetNames *) odr_malloc(o, sizeof *e);
            e->which = Z_ElementSetNames_generic;
            e->u.generic = odr_strdup(o, n);
            return e;
        };
        if (named)
        {
            s->u.searchRequest->smallSetElementSetNames = set("S");
            s->u.searchRequest->mediumSetElementSetNames = set("M");
        }
        long piggy = total <= pb[k][0] ? total : total >= pb[k][1] ? 0
            : std::min(pb[k][2], total);
        std::string got, want = piggy
            ? slice(1, piggy, !named ? "" : total <= pb[k][0] ? "S" : "M") : "none";
        long cnt = -1, ret = -1;
        a = cl.send(s, [&](mp::Package &p) {
            Z_GDU *g = p.response().get();
            if (g && g->which == Z_GDU_Z3950
                && g->u.z3950->which == Z_APDU_searchResponse)
            {
                Z_SearchResponse *x = g->u.z3950->u.searchResponse;
                got = zh::records(x->records);
                cnt = *x->resultCount;
                ret = *x->numberOfRecordsReturned;
            }
        });
        mc::evaluated();
        if (cnt != total || got != want || ret != piggy
            || a.substr(a.size() - 2) != "#s")
            mc::fail("search", "search answered with %s; %ld hits, %ld records and "
                     "%s expected", a.c_str(), total, piggy, want.c_str());
        out += a;
        if (k == 0 || mc::param("all", 0))
        {
            int start = mc::choose(total + 3), n = mc::choose(total + 2);
            const char *esn = n == 1 ? "B" : 0;
            server.log.clear();
            ret = -1;
            long next = -1;
            a = cl.send(zh::present_req(o, "1", start, n, 0, esn, "p"),
                        [&](mp::Package &p) {
                Z_GDU *g = p.response().get();
                if (g && g->which == Z_GDU_Z3950
                    && g->u.z3950->which == Z_APDU_presentResponse)
                {
                    Z_PresentResponse *x = g->u.z3950->u.presentResponse;
                    got = zh::records(x->records);
                    ret = *x->numberOfRecordsReturned;
                    next = *x->nextResultSetPosition;
                }
            });
            bool inside = start >= 1 && start + n - 1 <= total;
            mc::evaluated();
            std::string w = inside ? slice(start, n, esn ? esn : "") : "d:13:";
            if (n == 0 && got == "recs()")
                ;               // nothing asked for
            else if (got != w || (inside && ret != n)
                || (inside && next != start + n && !(next == 0 && start + n > total))
                || a.substr(a.size() - 2) != "#p")
                mc::fail(inside ? "order" : "range", "present %d+%d answered with %s;"
                         " %s expected", start, n, a.c_str(), w.c_str());
            out += "|" + a;
        }
        odr_destroy(o);
        cl.close();
        for (auto &x : server.s)
            if (x.second.requests && !x.second.closed)
                mc::fail("left-open", "session at target not ended");
    }
    mc::calm(false);
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}

// unavailable targets and targets which report diagnostics
MC_SCENARIO(mu_faults, 0)
{
    zh::quiet();
    mc::sched_begin();
    mc::calm(true);
    int nb = mc::param("targets", 2);
    bool hu = mc::choose(2), he = mc::choose(2), rr = mc::choose(2) == 0;
    std::string out;
    {
        zh::Routes r;
        zh::Server server;
        yf::Multi f;
        r.r[""].push_back(&f);
        r.r[""].push_back(&server);
        zh::configure(f, std::string("<f>") + (hu ? "<hideunavailable/>" : "")
                      + (he ? "<hideerrors/>" : "") + (rr ? "" :
                      "<mergetype>serveorder</mergetype>") + "</f>");
        server.drop_close = mc::choose(2);
        server.hits = [&](const std::vector<std::string> &d, const std::string &q) {
            return 1L + dbno(d[0]); };
        std::vector<int> fault(nb, 0);
        std::vector<bool> up(nb, false), refused(nb, false);
        server.fault = [&](zh::Server::Sess &x, const Z_APDU *a) {
            int i = x.vhost.size() ? x.vhost[1] - '0' : -1;
            if (a->which == Z_APDU_initRequest)
            {
                // the name of the target comes with this request
                std::list<std::string> l;
                mp::util::get_vhost_otherinfo(a->u.initRequest->otherInfo, l);
                i = l.size() ? l.front()[1] - '0' : -1;
            }
            if (i < 0 || i >= nb)
                mc::fail("target", "request for an unknown target");
            if (refused[i])
                mc::fail("refused", "request sent to target %d which refused the "
                         "session", i);
            return fault[i];
        };
        static const int fi[] = { zh::F_NONE, zh::F_DROP, zh::F_DIAG, zh::F_CLOSE };
        static const int fs[] = { zh::F_NONE, zh::F_DROP, zh::F_DIAG, zh::F_CLOSE,
            zh::F_MULTI, zh::F_MULTI0, zh::F_TEMP };
        static const int fp[] = { zh::F_NONE, zh::F_DROP, zh::F_DIAG, zh::F_CLOSE,
            zh::F_MULTI, zh::F_MULTI0, zh::F_SHORT };
        auto pick = [&](const int *t, int n, const char *what) {
            for (int i = 0; i < nb; i++)
            {
                fault[i] = t[mc::choose(n, mc::FAULT)];
                if (fault[i])
                    mc::note("%s: target %d: fault %d", what, i, fault[i]);
            }
        };
        std::string d_of[8];
        zh::Client cl(r);
        ODR o = odr_createmem(ODR_ENCODE);
        bool open = true;

        // ---- init
        pick(fi, 4, "init");
        std::string a = cl.send(init(o, nb));
        int good = 0, bad = 0;
        for (int i = 0; i < nb; i++)
        {
            up[i] = !fault[i];
            refused[i] = fault[i] == zh::F_DIAG;
            (up[i] ? good : bad)++;
        }
        bool ok = hu ? good > 0 : bad == 0;
        mc::evaluated();
        if (ok ? a.substr(0, 7) != "init:ok" || a.substr(a.size() - 2) != "#i"
            : a.substr(0, 9) != "init:fail" || !cl.closed)
            mc::fail("init", "Init answered with %s (%d targets up, %d down)",
                     a.c_str(), good, bad);
        out += a;
        open = ok;
        fault.assign(nb, 0);

        // ---- search, present; twice
        for (int round = 0; open && round < mc::param("rounds", 2); round++)
        {
            pick(fs, 7, "search");
            std::string got;
            long cnt = -1;
            a = cl.send(zh::search_req(o, "a", "1", zh::v("c"), true, "s"),
                        [&](mp::Package &p) {
                Z_GDU *g = p.response().get();
                if (g && g->which == Z_GDU_Z3950
                    && g->u.z3950->which == Z_APDU_searchResponse)
                {
                    Z_SearchResponse *x = g->u.z3950->u.searchResponse;
                    got = zh::records(x->records);
                    cnt = *x->resultCount;
                }
            });
            std::vector<long> c(nb, 0);
            std::vector<std::string> diags;
            int gone = 0, errs = 0;
            good = 0;
            for (int i = 0; i < nb; i++)
            {
                if (!up[i])
                    continue;
                switch (fault[i])
                {
                case zh::F_NONE:
                    good++;
                    c[i] = 1 + dbno(db(i));
                    break;
                case zh::F_DROP: case zh::F_CLOSE:
                    gone++;
                    up[i] = false;
                    break;
                case zh::F_DIAG:
                    errs++;
                    diags.push_back("d:114:bad");
                    break;
                case zh::F_TEMP:
                    errs++;
                    diags.push_back("d:2:bad");
                    break;
                case zh::F_MULTI:
                    errs++;
                    diags.push_back("d:100:multi");
                    diags.push_back("d:101:multi");
                    break;
                case zh::F_MULTI0:
                    errs++;
                    break;
                }
            }
            std::string dd;
            for (auto &x : diags)
                dd += x;
            if (diags.size() != 1)
                dd = "multi(" + dd + ")";
            mc::evaluated();
            out += "|" + a;
            // a target which went away earlier and is hidden stays so
            if (gone && (!good || !hu))
            {
                if (!cl.closed && !(good == 0 && errs && hu && got == dd))
                    mc::fail("search-lost", "a target went away; search answered "
                             "with %s", a.c_str());
                if (!cl.closed)
                    continue;
                open = false;
                break;
            }
            if (cl.closed && (!hu || !good) && std::count(up.begin(), up.end(), false))
            {
                open = false;   // one was lost earlier; not to be hidden now
                break;
            }
            if (cl.closed)
            {
                mc::fail("search-closed", "session ended by a search answered with "
                         "%s", a.c_str());
            }
            if (errs && (!good || !he))
            {
                if (got != dd && !(diags.empty() && got.substr(0, 4) != "recs"))
                    mc::fail("search-diag", "search answered with %s; %s expected",
                             a.c_str(), dd.c_str());
            }
            else
            {
                long total = 0;
                for (auto x : c)
                    total += x;
                if (cnt != total || got != "none")
                    mc::fail("search", "search answered with %s; %ld hits expected",
                             a.c_str(), total);
            }
            fault.assign(nb, 0);
            if (errs && !he)
                continue;

            pick(fp, 7, "present");
            std::vector<std::pair<int, int> > m = merge(c, rr);
            long total = m.size();
            if (!total)
                continue;
            int start = mc::choose(total) + 1, n = total - start + 1;
            got = "";
            long ret = -1;
            a = cl.send(zh::present_req(o, "1", start, n, 0, 0, "p"),
                        [&](mp::Package &p) {
                Z_GDU *g = p.response().get();
                if (g && g->which == Z_GDU_Z3950
                    && g->u.z3950->which == Z_APDU_presentResponse)
                {
                    Z_PresentResponse *x = g->u.z3950->u.presentResponse;
                    got = zh::records(x->records);
                    ret = *x->numberOfRecordsReturned;
                }
            });
            out += "|" + a;
            std::vector<int> used(nb, 0), last(nb, 0);
            for (int i = start; i < start + n; i++)
            {
                used[m[i - 1].first]++;
                last[m[i - 1].first] = m[i - 1].second;
            }
            gone = errs = good = 0;
            diags.clear();
            for (int i = 0; i < nb; i++)
            {
                if (!used[i])
                    continue;
                switch (fault[i])
                {
                case zh::F_NONE: case zh::F_SHORT:
                    good++;
                    break;
                case zh::F_DROP: case zh::F_CLOSE:
                    gone++;
                    up[i] = false;
                    break;
                case zh::F_DIAG:
                    errs++;
                    diags.push_back("d:14:bad");
                    break;
                case zh::F_MULTI:
                    errs++;
                    diags.push_back("d:100:multi");
                    diags.push_back("d:101:multi");
                    break;
                case zh::F_MULTI0:
                    errs++;
                    break;
                }
            }
            dd = "";
            for (auto &x : diags)
                dd += x;
            if (diags.size() != 1)
                dd = "multi(" + dd + ")";
            // the records of the targets which answered
            std::string w = "recs(";
            long wn = 0;
            for (int i = start; i < start + n; i++)
            {
                int b = m[i - 1].first;
                if (fault[b] != zh::F_NONE
                    && !(fault[b] == zh::F_SHORT && m[i - 1].second != last[b]))
                    continue;
                w += (wn++ ? "," : "") + rec(b, "@attrset Bib-1 a", m[i - 1].second);
            }
            w += ")";
            mc::evaluated();
            if (gone && (!good || (!hu && !he)))
            {
                if (!cl.closed && got != dd)
                    mc::fail("present-lost", "a target went away; present answered "
                             "with %s", a.c_str());
                if (cl.closed)
                    open = false;
                continue;
            }
            if (cl.closed)
            {
                // whether losing a target here is hidden by hideunavailable or by
                // hideerrors is left open
                if (!gone || (hu && he))
                    mc::fail("present-closed", "session ended by a present answered "
                             "with %s", a.c_str());
                open = false;
                break;
            }
            if (errs && (!good || !he))
            {
                if (got != dd && !(diags.empty() && got.substr(0, 4) != "recs"))
                    mc::fail("present-diag", "present answered with %s; %s expected",
                             a.c_str(), dd.c_str());
            }
            else if (got != w || ret != wn)
                mc::fail("present", "present %d+%d answered with %s; %s expected",
                         start, n, a.c_str(), w.c_str());
            fault.assign(nb, 0);
        }
        odr_destroy(o);
        if (!cl.closed)
            cl.close();
        else
            cl.close();
        for (auto &x : server.s)
            if (x.second.requests && !x.second.closes)
                mc::fail("left-open", "a target's session was not released");
    }
    mc::calm(false);
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}

static const char *const words[] = { "a", "b", "c", "d", "e" };

// scan: the terms of all targets
MC_SCENARIO(mu_scan, 0)
{
    zh::quiet();
    mc::sched_begin();
    mc::calm(true);
    int nb = mc::param("targets", 2), nt = mc::param("terms", 4);
    std::vector<std::map<std::string, int> > t(nb);
    std::map<std::string, int> all;
    int weight = 1;
    for (int i = 0; i < nb; i++, weight *= 10)
    {
        int bits = mc::choose(1 << nt);
        for (int k = 0; k < nt; k++)
            if (bits & (1 << k))
            {
                t[i][words[k]] = weight;
                all[words[k]] += weight;
            }
    }
    std::string out;
    {
        zh::Routes r;
        zh::Server server;
        yf::Multi f;
        r.r[""].push_back(&f);
        r.r[""].push_back(&server);
        zh::configure(f, "<f/>");
        server.terms = [&](const std::string &d) { return t[dbno(d)]; };
        zh::Client cl(r);
        ODR o = odr_createmem(ODR_ENCODE);
        cl.send(init(o, nb));
        static const char *const from[] = { "a", "b", "bb", "d", "z" };
        std::string w = from[mc::choose(5)];
        int n = mc::choose(mc::param("number", 4)) + 1;
        int p = mc::choose(n + 5) - 1;   // -1: not given; to n + 3
        Z_APDU *a = zh::scan_req(o, "c", w, n, p, "x");
        if (p < 0)
            a->u.scanRequest->preferredPositionInResponse = 0;
        int want_p = p < 0 ? 1 : p;
        std::vector<std::string> got, want;
        long rp = -1, ret = -1;
        std::string s = cl.send(a, [&](mp::Package &p) {
            Z_GDU *g = p.response().get();
            if (g && g->which == Z_GDU_Z3950
                && g->u.z3950->which == Z_APDU_scanResponse)
            {
                Z_ScanResponse *x = g->u.z3950->u.scanResponse;
                ret = *x->numberOfEntriesReturned;
                rp = x->positionOfTerm ? *x->positionOfTerm : want_p;
                if (x->entries)
                    for (int i = 0; i < x->entries->num_entries; i++)
                    {
                        Z_TermInfo *e = x->entries->entries[i]->u.termInfo;
                        got.push_back(zh::str(e->term->u.general) + "="
                                      + std::to_string(*e->globalOccurrences));
                    }
            }
        });
        // reference: one index with all terms
        std::vector<std::string> before, after;
        for (auto &e : all)
        {
            std::string x = e.first + "=" + std::to_string(e.second);
            if (e.first < w)
                before.push_back(x);
            else if (!(want_p == 0 && e.first == w))
                after.push_back(x);
        }
        mc::evaluated();
        out = s;
        if ((long) got.size() > n || ret != (long) got.size())
            mc::fail("number", "%d terms asked for; scan answered with %s", n,
                     s.c_str());
        if (want_p <= n + 1)
        {
            long nbef = std::min<long>(before.size(), std::max(want_p - 1, 0));
            want.assign(before.end() - nbef, before.end());
            for (auto &x : after)
                if ((long) want.size() < n)
                    want.push_back(x);
            if (got != want || (want_p > 0 && rp != nbef + 1))
            {
                std::string l;
                for (auto &x : want)
                    l += (l.size() ? "," : "") + x;
                mc::fail("terms", "scan from %s, %d terms, position %d answered with "
                         "%s; %s expected", w.c_str(), n, p, s.c_str(), l.c_str());
            }
        }
        odr_destroy(o);
        cl.close();
    }
    mc::calm(false);
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}

// which route and which credentials a target gets; targets' result sets by name
MC_SCENARIO(mu_route, 0)
{
    zh::quiet();
    mc::sched_begin();
    mc::calm(true);
    std::string out;
    {
        zh::Routes r;
        zh::Server main, ra, rb;
        yf::Multi f;
        r.r[""].push_back(&f);
        r.r[""].push_back(&main);
        r.r["A"].push_back(&ra);
        r.r["B"].push_back(&rb);
        int cfg = mc::choose(4);
        static const char *const cfgs[] = {
            "<f><target route='A'>h0/d0</target><target route='B' auth='x/y'>h1*"
            "</target></f>",
            "<f><target route='A' auth='k/l'>h*</target><target route='B'>h1/d1"
            "</target></f>",
            "<f><target route='B'>h2</target><target route='A'>*</target></f>",
            "<f/>" };
        static const char route[4][4] = { "AB-", "AAA", "AAB", "---" };
        static const char *const auth[4][3] = { { "u", "x/y", "u" },
            { "k/l", "k/l", "k/l" }, { "u", "u", "u" }, { "u", "u", "u" } };
        zh::configure(f, cfgs[cfg]);
        zh::Server *all[] = { &main, &ra, &rb };
        std::map<std::string, std::pair<char, std::string> > seen;
        int end = 0;
        for (int k = 0; k < 3; k++)
        {
            char c = k == 0 ? '-' : k == 1 ? 'A' : 'B';
            all[k]->hits = [](const std::vector<std::string> &d,
                              const std::string &q) {
                return (long) (dbno(d[0]) + (q.back() == 'b')); };
            all[k]->pre = [&, c](mp::Package &p) {
                Z_GDU *g = p.request().get();
                if (p.session().is_closed())
                    end++;
                if (!g || g->u.z3950->which != Z_APDU_initRequest)
                    return;
                Z_InitRequest *q = g->u.z3950->u.initRequest;
                std::list<std::string> l;
                mp::util::get_vhost_otherinfo(q->otherInfo, l);
                std::string u;
                if (q->idAuthentication
                    && q->idAuthentication->which == Z_IdAuthentication_open)
                    u = q->idAuthentication->u.open;
                else if (q->idAuthentication
                         && q->idAuthentication->which == Z_IdAuthentication_idPass)
                    u = q->idAuthentication->u.idPass->userId;
                for (auto &v : l)
                    seen[v] = std::make_pair(c, u);
                if (l.size() != 1)
                    mc::fail("vhost", "%d targets named in the Init of one of them",
                             (int) l.size());
            };
        }
        int nb = 1 + mc::choose(3);
        zh::Client cl(r);
        ODR o = odr_createmem(ODR_ENCODE);
        std::string a = cl.send(init(o, nb));
        for (int i = 0; i < nb; i++)
        {
            mc::evaluated();
            auto it = seen.find(vhost(i));
            if (it == seen.end())
                mc::fail("route", "target %s not contacted", vhost(i).c_str());
            else if (it->second.first != route[cfg][i]
                     || it->second.second != auth[cfg][i])
                mc::fail("route", "target %s: route %c with user %s; %c with %s "
                         "expected", vhost(i).c_str(), it->second.first,
                         it->second.second.c_str(), route[cfg][i], auth[cfg][i]);
        }
        out = a;
        // operations on up to two named sets
        std::map<std::string, std::string> sets;
        for (int d = 0; d < mc::param("depth", 3); d++)
        {
            int op = mc::choose(8);
            std::string set = op & 1 ? "1" : "2";
            if (op < 6)
            {
                std::string q = op & 2 ? "a" : "b";
                bool replace = op < 4;
                std::string got;
                a = cl.send(zh::search_req(o, q, set, zh::v("c"), replace, "s"),
                            [&](mp::Package &p) {
                    Z_GDU *g = p.response().get();
                    if (g && g->which == Z_GDU_Z3950
                        && g->u.z3950->which == Z_APDU_searchResponse)
                        got = zh::records(g->u.z3950->u.searchResponse->records);
                });
                if (!replace && sets.count(set))
                {
                    if (got.find("d:21:") == std::string::npos)
                        mc::fail("replace", "search for the existing set %s answered"
                                 " with %s", set.c_str(), a.c_str());
                }
                else
                {
                    if (got != "none")
                        mc::fail("search", "search answered with %s", a.c_str());
                    sets[set] = q;
                }
            }
            else
            {
                std::string q = sets.count(set) ? sets[set] : "";
                std::vector<long> c;
                for (int i = 0; i < nb; i++)
                    c.push_back(i + (q == "b"));
                std::vector<std::pair<int, int> > m = merge(c, true);
                std::string want = "d:30:" + set, got;
                int n = m.size() && q.size() ? m.size() : 1;
                if (q.size())
                {
                    want = m.empty() ? "d:13:" : "recs(";
                    for (int i = 0; i < (int) m.size(); i++)
                        want += (i ? "," : "") + rec(m[i].first, "@attrset Bib-1 "
                                                     + q, m[i].second);
                    want += m.empty() ? "" : ")";
                }
                a = cl.send(zh::present_req(o, set, 1, n, 0, 0, "p"),
                            [&](mp::Package &p) {
                    Z_GDU *g = p.response().get();
                    if (g && g->which == Z_GDU_Z3950
                        && g->u.z3950->which == Z_APDU_presentResponse)
                        got = zh::records(g->u.z3950->u.presentResponse->records);
                });
                mc::evaluated();
                if (got != want)
                    mc::fail("set", "present from set %s (query %s) answered with "
                             "%s; %s expected", set.c_str(), q.c_str(), a.c_str(),
                             want.c_str());
            }
            out += "|" + a;
        }
        odr_destroy(o);
        cl.close();
        if (end != nb)
            mc::fail("left-open", "%d of %d sessions at targets released", end, nb);
    }
    mc::calm(false);
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}

// two clients, and two requests of one client, at the same time
MC_SCENARIO(mu_mt, 0)
{
    zh::quiet();
    mc::sched_begin();
    std::string out;
    int nt = mc::param("targets", 2);
    int mode = mc::choose(2);           // two clients; one client, two requests
    {
        zh::Routes r;
        zh::Server server;
        yf::Multi f;
        r.r[""].push_back(&f);
        r.r[""].push_back(&server);
        zh::configure(f, "<f/>");
        server.yield = true;
        server.hits = [](const std::vector<std::string> &d, const std::string &q) {
            return 1L + dbno(d[0]); };
        std::vector<zh::Client *> cl;
        mc::calm(true);
        for (int i = 0; i < 2 - mode; i++)
        {
            cl.push_back(new zh::Client(r));
            ODR o = odr_createmem(ODR_ENCODE);
            if (mode || mc::param("warm", 1))
                cl[i]->send(init(o, nt));
            odr_destroy(o);
        }
        mc::calm(false);
        std::vector<int> t;
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                zh::Client copy = *cl[mode ? 0 : i], *c = &copy;
                ODR o = odr_createmem(ODR_ENCODE);
                std::string set = std::to_string(i), q = i ? "a" : "b";
                if (!mode && !mc::param("warm", 1))
                    c->send(init(o, nt));
                std::string a = c->send(zh::search_req(o, q, set, zh::v("c"), true,
                                                       "s" + set));
                std::string b = mc::param("present", 1) ?
                    c->send(zh::present_req(o, set, 1, nt == 1 ? 1 : 3, 0, 0, "p" + set)) : "";
                mc::NoRace nr;
                std::string w = "recs(" + rec(0, "@attrset Bib-1 " + q, 1);
                if (nt == 2)
                    w += "," + rec(1, "@attrset Bib-1 " + q, 1) + ","
                        + rec(1, "@attrset Bib-1 " + q, 2);
                w += ")#p" + set;
                mc::evaluated();
                if (a.substr(0, 9) != (nt == 1 ? "search:1:" : "search:3:") || a.substr(a.size() - 3)
                    != "#s" + set)
                    mc::fail("search", "search answered with %s", a.c_str());
                if (b.size() && (b.size() < w.size()
                                 || b.substr(b.size() - w.size()) != w))
                    mc::fail("present", "present answered with %s", b.c_str());
                odr_destroy(o);
                if (!mode)
                    c->close();
            }));
        for (int x : t)
            mc::join(x);
        if (mode)
            cl[0]->close();
        for (auto x : cl)
            delete x;
        for (auto &x : server.s)
            if (x.second.requests && x.second.closes != 1)
                mc::fail("left-open", "session at target released %d times",
                         x.second.closes);
        out = std::to_string(server.s.size());
    }
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}
