// Sorting of result sets.
// ONLY: filter_sort package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_sort.hpp"

enum { OK, DIAG, CLOSE, DROP, SILENT, NREPLY };

// a target: sets of records with keys
struct Srv : public zh::Fn {
    struct Set { std::vector<std::string> keys; };
    std::map<std::string, Set> sets;
    int cap, asked, last, serial;
    bool yield, faults, bad;
    std::string keys;           // of the next search; '-': record without key
    Srv() : cap(0), asked(0), last(OK), serial(0), yield(false), faults(true),
            bad(false)
    {
        f = [this](mp::Package &p) { serve(p); };
    }
    // bytes of record i (from 1) of a set
    static std::string rec(const Set &s, int i, const std::string &syn,
                           const std::string &esn)
    {
        std::string k = s.keys[i - 1].substr(0, 1);
        return "<r i='" + s.keys[i - 1].substr(1) + "' s='" + syn + "' e='" + esn
            + "'>" + (k == "-" ? "" : "<k>" + k + "</k>") + "</r>";
    }
    void serve(mp::Package &p)
    {
        Z_GDU *g = p.request().get();
        if (!g || g->which != Z_GDU_Z3950)
            return;
        if (yield)
            mc::point("server");
        mc::NoRace nr;
        mp::odr o;
        ODR od = o;
        Z_APDU *a = g->u.z3950;
        if (a->which == Z_APDU_initRequest)
        {
            p.response() = o.create_initResponse(a, 0, 0);
            return;
        }
        if (++asked > 30)
            mc::fail("endless", "more than 30 requests for one");
        if (a->which == Z_APDU_close)
        {
            p.response() = o.create_close(a, Z_Close_finished, 0);
            p.session().close();
            return;
        }
        last = faults ? mc::choose(NREPLY, mc::FAULT) : OK;
        if (last == CLOSE)
            p.response() = o.create_close(a, Z_Close_systemProblem, "gone");
        if (last == CLOSE || last == DROP)
        {
            bad = true;
            p.session().close();
            return;
        }
        if (last == SILENT)
            return;
        long b, n, hits = 0;
        std::string syn, esn, rs;
        bool search = a->which == Z_APDU_searchRequest;
        if (a->which == Z_APDU_deleteResultSetRequest)
        {
            Z_DeleteResultSetRequest *q = a->u.deleteResultSetRequest;
            if (last == OK)
            {
                if (*q->deleteFunction == Z_DeleteResultSetRequest_all)
                    sets.clear();
                else
                    for (int i = 0; i < q->num_resultSetList; i++)
                        sets.erase(q->resultSetList[i]);
            }
            Z_APDU *r = o.create_APDU(Z_APDU_deleteResultSetResponse, a);
            *r->u.deleteResultSetResponse->deleteOperationStatus = last != OK;
            p.response() = r;
            return;
        }
        if (search)
        {
            Z_SearchRequest *q = a->u.searchRequest;
            rs = q->resultSetName;
            if (sets.count(rs) && !*q->replaceIndicator)
                last = DIAG;
            else
                sets.erase(rs);
            if (last == DIAG)
            {
                p.response() = o.create_searchResponse(a, 2, "dd");
                return;
            }
            Set s;
            serial++;
            for (auto k : keys)
                s.keys.push_back(std::string(1, k) + std::to_string(serial) + "."
                                 + std::to_string(s.keys.size() + 1));
            sets[rs] = s;
            hits = keys.size();
            b = 1;
            const char *e = 0;
            Odr_int k = 0;
            mp::util::piggyback_sr(q, hits, k, &e);
            n = k;
            esn = e ? e : "";
            syn = zh::oid(q->preferredRecordSyntax);
        }
        else
        {
            Z_PresentRequest *q = a->u.presentRequest;
            rs = q->resultSetId;
            b = *q->resultSetStartPoint;
            n = *q->numberOfRecordsRequested;
            if (q->recordComposition)
                esn = q->recordComposition->u.simple->u.generic;
            syn = zh::oid(q->preferredRecordSyntax);
            if (last == DIAG || !sets.count(rs))
            {
                p.response() = o.create_presentResponse(a, sets.count(rs) ? 2 : 30,
                                                        0);
                last = DIAG;
                return;
            }
            hits = sets[rs].keys.size();
            if (b < 1 || n < 0 || b - 1 + n > hits)
            {
                p.response() = o.create_presentResponse(a, 13, 0);
                last = DIAG;
                return;
            }
        }
        if (cap && n > cap)
            n = cap;
        std::vector<Z_NamePlusRecord *> v;
        for (int i = 0; i < n; i++)
            v.push_back(zh::rec(od, "db", rec(sets[rs], b + i, syn, esn)));
        Z_APDU *r = search ? o.create_searchResponse(a, 0, 0)
            : o.create_presentResponse(a, 0, 0);
        Z_Records *z = n ? zh::recs(od, v) : 0;
        Odr_int next = b + n > hits ? 0 : b + n;
        if (search)
        {
            Z_SearchResponse *x = r->u.searchResponse;
            *x->resultCount = hits;
            x->records = z;
            *x->numberOfRecordsReturned = n;
            *x->nextResultSetPosition = next;
        }
        else
        {
            Z_PresentResponse *x = r->u.presentResponse;
            x->records = z;
            *x->numberOfRecordsReturned = n;
            *x->nextResultSetPosition = next;
        }
        p.response() = r;
    }
};

typedef std::vector<std::string> Recs;

static std::string list(const Recs &r, int b, int n)
{
    std::string s = "recs(";
    for (int i = 0; i < n; i++)
        s += (i ? ",[db]" : "[db]") + r[b - 1 + i];
    return s + ")";
}

// what the client should see of one result set
struct View {
    Srv::Set set;
    std::map<std::string, int> sorted;   // syntax/element set -> records sorted
    std::map<std::string, Recs> first;
    Recs raw(const std::string &syn, const std::string &esn) const
    {
        Recs r;
        for (size_t i = 1; i <= set.keys.size(); i++)
            r.push_back(Srv::rec(set, i, syn, esn));
        return r;
    }
    void sort(const std::string &syn, const std::string &esn, int n, bool up)
    {
        std::vector<std::pair<std::string, int> > v;
        for (int i = 0; i < n; i++)
        {
            std::string k = set.keys[i].substr(0, 1);
            v.push_back(std::make_pair(k == "-" ? "" : k, i + 1));
        }
        std::stable_sort(v.begin(), v.end(),
            [](const std::pair<std::string, int> &a,
               const std::pair<std::string, int> &b) { return a.first < b.first; });
        if (!up)
            std::reverse(v.begin(), v.end());
        Recs r;
        for (auto &x : v)
            r.push_back(Srv::rec(set, x.second, syn, esn));
        first[syn + "/" + esn] = r;
    }
};

static Z_APDU *search(ODR o, const std::string &rs, int piggy, bool replace)
{
    Z_APDU *a = zh::search_req(o, "a", rs, zh::v("db"), replace, "r");
    Z_SearchRequest *q = a->u.searchRequest;
    *q->smallSetUpperBound = 0;
    *q->largeSetLowerBound = 1;
    *q->mediumSetPresentNumber = 0;
    if (piggy)
    {
        *q->largeSetLowerBound = 100;
        *q->mediumSetPresentNumber = piggy;
        q->mediumSetElementSetNames = (Z_ElementSetNames *)
            odr_malloc(o, sizeof(Z_ElementSetNames));
        q->mediumSetElementSetNames->which = Z_ElementSetNames_generic;
        q->mediumSetElementSetNames->u.generic = odr_strdup(o, "F");
        q->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_xml);
    }
    return a;
}

static const char *const keysets[] = { "cab", "ba-c", "", "aa", "dcbae", "a" };

static std::string conf(int prefetch, bool up)
{
    return "<f><sort xpath='/r/k' prefetch='" + std::to_string(prefetch) + "' "
        "ascending='" + (up ? "true" : "false") + "'/></f>";
}

MC_SCENARIO(so_seq, 0)
{
    zh::quiet();
    int depth = mc::param("depth", 3), nkeys = mc::param("keys", 6);
    int rich = mc::param("rich", 1);
    std::string out;
    {
        mp::RouterChain r;
        yf::Sort f;
        Srv s;
        r.append(f);
        r.append(s);
        static const int pf[] = { 3, 0, 20 };
        int prefetch = pf[mc::choose(3)];
        bool up = mc::choose(2);
        s.cap = mc::choose(3);
        zh::configure(f, conf(prefetch, up));
        zh::Client c(r);
        {
            ODR o = odr_createmem(ODR_ENCODE);
            c.send(zh::init_req(o, "i"));
            odr_destroy(o);
        }
        std::map<std::string, View> sets;
        std::string x = zh::oid(yaz_oid_recsyn_xml);
        for (int d = 0; d < depth && !c.closed; d++)
        {
            int op = d == 0 ? 0 : mc::choose(rich ? 3 : 2);
            ODR o = odr_createmem(ODR_ENCODE);
            s.asked = 0;
            s.bad = false;
            std::string rs = d && mc::choose(2) ? "2" : "1";
            std::string a;
            long n, b;
            if (op == 0)
            {
                s.keys = keysets[mc::choose(nkeys)];
                int piggy = mc::choose(2) * 2;
                bool replace = !d || !rich || mc::choose(2);
                int before = s.serial;
                bool had = s.sets.count(rs);
                long hits = s.keys.size();
                a = c.send(search(o, rs, piggy, replace));
                mc::evaluated();
                if (had && !replace)
                {
                    if (s.serial != before || (s.asked && s.last == OK)
                        || a.find("search:0:fail") != 0)
                        if (!s.bad && s.last != SILENT)
                            mc::fail("replace", "search for an existing set answered "
                                     "with %s", a.c_str());
                }
                else if (s.serial == before)
                {
                    // failed
                    if (!s.asked)
                        mc::fail("search", "search answered with %s", a.c_str());
                    if (s.last == DIAG && a.find("search:0:fail:ret0:next0:d:2:")
                        != 0)
                        mc::fail("failed", "failed search answered with %s",
                                 a.c_str());
                    sets.erase(rs);
                }
                else
                {
                    View v;
                    v.set = s.sets[rs];
                    n = piggy < hits ? piggy : hits;
                    if (s.cap && n > s.cap)
                        n = s.cap;
                    std::string k = x + "/F", e = "none";
                    if (n)
                    {
                        long l = prefetch < hits ? prefetch : hits;
                        if (s.last != OK)
                            l = -1;     // not prefetched all
                        if (l < n)
                            l = n;
                        if (s.last == OK)
                        {
                            v.sort(x, "F", l, up);
                            e = list(v.first[k], 1, n);
                        }
                        else
                            e = "";
                    }
                    sets[rs] = v;
                    std::string h = "search:" + std::to_string(hits) + ":ok:ret"
                        + std::to_string(n) + ":next"
                        + std::to_string(n < hits ? n + 1 : 0) + ":";
                    if (e.size() ? a != h + e + "#r" : a.find(h + "recs(") != 0)
                        mc::fail("search", "search of %s answered with %s instead of "
                                 "%s", s.keys.c_str(), a.c_str(), (h + e).c_str());
                    if (s.last != OK && e.empty())
                    {
                        // which part was sorted is known to the filter only
                        odr_destroy(o);
                        if (s.bad != c.closed)
                            mc::fail("closed", "target gone: %d, session closed: %d",
                                     s.bad, c.closed);
                        break;
                    }
                }
            }
            else if (op == 1)
            {
                static const int bs[] = { 1, 2, 4, 0, -1 };
                static const int ns[] = { 2, 1, 3, 0, -1, -5 };
                b = bs[mc::choose(rich ? 5 : 2)];
                n = ns[mc::choose(rich ? 6 : 3)];
                int kind = rich ? mc::choose(3) : 0;    // syntax, element set
                std::string syn = kind == 2 ? zh::oid(yaz_oid_recsyn_sutrs) : x;
                std::string esn = kind == 1 ? "B" : "F";
                a = c.send(zh::present_req(o, rs, b, n, kind == 2
                                           ? yaz_oid_recsyn_sutrs
                                           : yaz_oid_recsyn_xml, esn.c_str(), "r"));
                mc::evaluated();
                std::string k = syn + "/" + esn;
                int asked = s.asked;
                if (!sets.count(rs))
                {
                    if (a.find("d:30:") == std::string::npos
                        && (!asked || s.last == OK))
                        mc::fail("unknown", "present of an unknown set answered "
                                 "with %s", a.c_str());
                }
                else if (asked && s.last != OK)
                {
                    View &v = sets[rs];
                    // a failure is passed on, or shortens what is sorted
                    if (asked == 1 && s.last == DIAG
                        && a.find("present:st5") != 0)
                        mc::fail("failed", "failed present answered with %s",
                                 a.c_str());
                    if (s.bad != c.closed)
                        mc::fail("closed", "target gone: %d, session closed: %d",
                                 s.bad, c.closed);
                    if (asked > 1)
                    {
                        odr_destroy(o);
                        break;
                    }
                    (void) v;
                }
                else
                {
                    View &v = sets[rs];
                    long hits = v.set.keys.size();
                    if (b < 1 || n < 0 || b - 1 + n > hits)
                    {
                        if (a.find("d:13:") == std::string::npos)
                            mc::fail("range", "present of %ld+%ld of %ld answered "
                                     "with %s", b, n, hits, a.c_str());
                    }
                    else
                    {
                        long m = n;
                        Recs e;
                        bool have = v.first.count(k)
                            && b - 1 + n <= (long) v.first[k].size();
                        if (!have && s.cap && m > s.cap)
                            m = s.cap;
                        if (!have && b == 1 && m > 0 && !v.first.count(k))
                        {
                            long l = prefetch < hits ? prefetch : hits;
                            v.sort(syn, esn, l < m ? m : l, up);
                            have = true;
                        }
                        e = have ? v.first[k] : v.raw(syn, esn);
                        std::string w = "present:st0:ret" + std::to_string(m)
                            + ":next" + std::to_string(b + m > hits ? 0 : b + m)
                            + ":";
                        std::string w1 = w + list(e, b, m) + "#r";
                        if (a != w1 && !(m == 0 && a == w + "none#r"))
                            mc::fail("present", "present of %ld+%ld answered with %s "
                                     "instead of %s", b, n, a.c_str(), w1.c_str());
                    }
                }
            }
            else
            {
                Z_APDU *q = zget_APDU(o, Z_APDU_deleteResultSetRequest);
                Z_DeleteResultSetRequest *z = q->u.deleteResultSetRequest;
                bool all = mc::choose(2);
                *z->deleteFunction = all ? Z_DeleteResultSetRequest_all
                    : Z_DeleteResultSetRequest_list;
                if (!all)
                {
                    z->num_resultSetList = 1;
                    z->resultSetList = (char **) odr_malloc(o, sizeof(char *));
                    z->resultSetList[0] = odr_strdup(o, rs.c_str());
                }
                a = c.send(q);
                if (!s.asked)
                    mc::fail("delete", "delete not relayed but %s", a.c_str());
                if (s.last == OK)
                {
                    if (all)
                        sets.clear();
                    else
                        sets.erase(rs);
                }
            }
            odr_destroy(o);
            if (s.bad != c.closed)
                mc::fail("closed", "target gone: %d, session closed: %d", s.bad,
                         c.closed);
            if (s.asked && (s.last == CLOSE) && a.find("close:2:gone") != 0
                && a.find("recs(") == std::string::npos)
                mc::fail("close", "Close not passed on but %s", a.c_str());
            out += a + " ";
        }
        c.close();
    }
    mc::outcome(out);
    mc::state(out);
}

// two requests of one session, or of two
MC_SCENARIO(so_mt, 0)
{
    zh::quiet();
    mc::sched_begin();
    std::string out;
    int mode = mc::choose(3);
    {
        mp::RouterChain r;
        yf::Sort f;
        Srv s[2];
        zh::Fn d;
        std::map<unsigned long, int> of;
        d.f = [&](mp::Package &p) { s[of[p.session().id()]].serve(p); };
        r.append(f);
        r.append(d);
        zh::configure(f, conf(3, true));
        zh::Client *c[2] = { new zh::Client(r), new zh::Client(r) };
        mc::calm(true);
        for (int i = 0; i < 2; i++)
        {
            of[c[i]->session.id()] = i;
            s[i].faults = false;
            s[i].keys = "cab";
            ODR o = odr_createmem(ODR_ENCODE);
            c[i]->send(zh::init_req(o, "i"));
            c[i]->send(search(o, "1", 0, true));
            odr_destroy(o);
        }
        s[0].yield = s[1].yield = true;
        mc::calm(false);
        std::string a[2];
        std::vector<int> t;
        for (int i = 0; i < 2; i++)
            t.push_back(mc::spawn([&, i]() {
                // 0: two sessions, 1: one session, 2: one of them ends it
                zh::Client k = *c[mode ? 0 : i];
                ODR o = odr_createmem(ODR_ENCODE);
                a[i] = k.send(mode == 2 && i ? zget_APDU(o, Z_APDU_close)
                              : zh::present_req(o, "1", 1, 2, yaz_oid_recsyn_xml,
                                                "F", "r"));
                odr_destroy(o);
            }));
        for (int x : t)
            mc::join(x);
        mc::calm(true);
        mc::evaluated();
        View v;
        v.set.keys = { "c1.1", "a1.2", "b1.3" };
        std::string x = zh::oid(yaz_oid_recsyn_xml);
        v.sort(x, "F", 3, true);
        std::string sorted = list(v.first[x + "/F"], 1, 2);
        std::string raw = list(v.raw(x, "F"), 1, 2);
        for (int i = 0; i < 2; i++)
        {
            if (mode == 2 && i)
                continue;
            bool ok = a[i].find(sorted + "#r") != std::string::npos;
            if (!ok && !(mode == 2 && a[i].find(raw) != std::string::npos))
                mc::fail("present", "answered with %s", a[i].c_str());
        }
        for (auto k : c)
        {
            k->close();
            delete k;
        }
        out = std::to_string(mode) + a[0].substr(0, 10) + a[1].substr(0, 10);
        mc::calm(false);
    }
    mc::sched_end();
    mc::outcome(out);
    mc::state(out);
}
