// A reference Z39.50 server: used behind filters, and on its own as the oracle.
#ifndef BE_HPP
#define BE_HPP
#include "zh.hpp"
#include <yaz/copy_types.h>

namespace zh {

enum Fault { F_NONE, F_DROP, F_TEMP, F_DIAG, F_CLOSE, F_MULTI, F_MULTI0, F_SHORT };

struct Server : public yf::Base {
    struct Set { std::vector<std::string> dbs; std::string q; long hits; };
    struct Sess {
        bool init, closed;
        int inflight, closes, requests;
        std::string user, vhost;
        std::map<std::string, Set> sets;
        Sess() : init(false), closed(false), inflight(0), closes(0), requests(0) {}
    };
    std::map<unsigned long, Sess> s;
    std::vector<std::string> log;               // "session kind details"
    bool named;                                 // named result sets supported
    size_t max_sets;                            // 0: no limit checked
    bool same_db;                // queries refer to sets of the same databases only
    bool drop_close;            // a lost connection shows as a Close
    bool yield;                                 // scheduling point per request
    std::string syntaxes;
    // fault to inject (default none), number of hits, records available
    std::function<int(Sess &, const Z_APDU *)> fault;
    std::function<long(const std::vector<std::string> &, const std::string &)> hits;
    std::function<std::string(const std::string &db, const std::string &q,
                              long pos, const std::string &esn)> record;
    std::function<void(mp::Package &)> pre;
    // database name given with a record
    std::function<std::string(const std::string &db, long pos)> name;
    // terms of a database in order, with their number of occurrences
    std::function<std::map<std::string, int>(const std::string &db)> terms;
    bool scan_pos;              // scan answers tell the position of the term
    Server() : named(true), max_sets(0), same_db(false), drop_close(false), yield(false),
               scan_pos(true) {
        hits = [](const std::vector<std::string> &d, const std::string &q) {
            return 3L; };
        record = [](const std::string &db, const std::string &q, long pos,
                    const std::string &esn) {
            return db + "/" + q + "/" + std::to_string(pos) + "/" + esn; };
    }
    void configure(const xmlNode *, bool, const char *) {}
    void process(mp::Package &p) const { const_cast<Server *>(this)->handle(p); }

    int open() const {
        int n = 0;
        for (auto &x : s)
            n += x.second.init && !x.second.closed;
        return n;
    }
    // replace references to result sets by the queries behind them
    static bool expand(Sess &x, ODR o, Z_RPNStructure *r, std::string &bad,
                       const std::vector<std::string> *dbs)
    {
        if (r->which == Z_RPNStructure_complex)
            return expand(x, o, r->u.complex->s1, bad, dbs)
                && expand(x, o, r->u.complex->s2, bad, dbs);
        if (r->u.simple->which != Z_Operand_resultSetId)
            return true;
        auto it = x.sets.find(r->u.simple->u.resultSetId);
        if (it == x.sets.end() || (dbs && it->second.dbs != *dbs))
        {
            bad = r->u.simple->u.resultSetId;
            return false;
        }
        YAZ_PQF_Parser pp = yaz_pqf_create();
        Z_RPNQuery *q = yaz_pqf_parse(pp, o, it->second.q.c_str());
        yaz_pqf_destroy(pp);
        *r = *q->RPNStructure;
        return true;
    }
    static std::string pqf(const Z_Query *q)
    {
        std::string t = zh::query(q);
        return t.substr(0, 4) == "RPN " ? t.substr(4) : t;
    }
    Z_Records *get(ODR o, const Set &st, long start, long n, const std::string &esn,
                   const Odr_oid *syn)
    {
        std::vector<Z_NamePlusRecord *> v;
        for (long i = start; i < start + n; i++)
        {
            // records are spread over the databases in turn
            const std::string &db = st.dbs[(i - 1) % st.dbs.size()];
            v.push_back(zh::rec(o, name ? name(db, i) : db, record(db, st.q, i, esn),
                                syn ? syn : yaz_oid_recsyn_xml));
        }
        return zh::recs(o, v);
    }
    static Z_Records *multi(ODR o, int n)
    {
        Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r);
        r->which = Z_Records_multipleNSD;
        Z_DiagRecs *d = r->u.multipleNonSurDiagnostics =
            (Z_DiagRecs *) odr_malloc(o, sizeof *d);
        d->num_diagRecs = n;
        d->diagRecs = (Z_DiagRec **) odr_malloc(o, 8 * (n + 1));
        for (int i = 0; i < n; i++)
        {
            d->diagRecs[i] = (Z_DiagRec *) odr_malloc(o, sizeof(Z_DiagRec));
            d->diagRecs[i]->which = Z_DiagRec_defaultFormat;
            d->diagRecs[i]->u.defaultFormat =
                zget_DefaultDiagFormat(o, 100 + i, "multi");
        }
        return r;
    }
    static std::string comp(const Z_RecordComposition *c)
    {
        if (!c)
            return "";
        if (c->which == Z_RecordComp_simple)
        {
            if (c->u.simple->which == Z_ElementSetNames_generic)
                return c->u.simple->u.generic;
            return "dbspecific";
        }
        return "complex";
    }
    void handle(mp::Package &p)
    {
        Z_GDU *g = p.request().get();
        Sess *x;
        int f = F_NONE;
        {
            mc::NoRace nr;
            if (pre)
                pre(p);
            x = &s[p.session().id()];
            if (p.session().is_closed())
            {
                x->closes++;
                if (x->init && !x->closed)
                    mc::note("server: session %lu ends", p.session().id());
                if (x->inflight)
                    mc::fail("close-in-use", "backend session closed while a "
                             "request is in progress on it");
                x->closed = true;
                return;
            }
            if (!g || g->which != Z_GDU_Z3950)
                return;
            if (x->closed)
                mc::fail("use-after-close", "request %s sent on a backend session "
                         "that has ended", zh::desc(g).c_str());
            if (x->inflight++)
                mc::fail("shared-use", "two requests in progress on one backend "
                         "session");
            x->requests++;
            log.push_back(std::to_string(p.session().id()) + " " + zh::desc(g));
            mc::note("server %lu: %s", p.session().id(), zh::desc(g).c_str());
        }
        if (yield)
            mc::point("server");
        mc::NoRace nr;
        if (fault)
            f = fault(*x, g->u.z3950);
        x->inflight--;
        if (f == F_DROP)
        {
            mc::note("server %lu: drops the connection", p.session().id());
            p.session().close();
            x->closed = true;
            if (drop_close)
                p.response() = mp::odr().create_close(g->u.z3950,
                                                      Z_Close_peerAbort, "drop");
            return;
        }
        mp::odr m;
        Z_APDU *r = answer(*x, m, g->u.z3950, f);
        p.response() = r;
        if (r->which == Z_APDU_close)
        {
            p.session().close();
            x->closed = true;
        }
        mc::note("server %lu: answers %s", p.session().id(),
                 zh::desc(p.response().get()).c_str());
    }
    void scan(mp::odr &m, const Z_ScanRequest &q, Z_ScanResponse &s)
    {
        ODR o = m;
        std::map<std::string, int> t =
            terms(q.num_databaseNames ? q.databaseNames[0] : "");
        std::string w = zh::str(q.termListAndStartPoint->term->u.general);
        std::vector<std::pair<std::string, int> > v(t.begin(), t.end()), r;
        long at = 0, p = q.preferredPositionInResponse
            ? *q.preferredPositionInResponse : 1, n = *q.numberOfTermsRequested;
        while (at < (long) v.size() && v[at].first < w)
            at++;
        long first = at - (p - 1);
        if (p == 0 && !t.count(w))
            first--;
        if (first < 0)
            p += first, first = 0;
        for (long i = first; i < first + n && i < (long) v.size(); i++)
            r.push_back(v[i]);
        s.entries = (Z_ListEntries *) odr_malloc(o, sizeof(Z_ListEntries));
        memset(s.entries, 0, sizeof *s.entries);
        s.entries->num_entries = r.size();
        s.entries->entries = (Z_Entry **) odr_malloc(o, 8 * (r.size() + 1));
        for (size_t i = 0; i < r.size(); i++)
        {
            Z_Entry *e = s.entries->entries[i] =
                (Z_Entry *) odr_malloc(o, sizeof(Z_Entry));
            e->which = Z_Entry_termInfo;
            e->u.termInfo = (Z_TermInfo *) odr_malloc(o, sizeof(Z_TermInfo));
            memset(e->u.termInfo, 0, sizeof(Z_TermInfo));
            e->u.termInfo->term = (Z_Term *) odr_malloc(o, sizeof(Z_Term));
            e->u.termInfo->term->which = Z_Term_general;
            e->u.termInfo->term->u.general = oct(o, r[i].first);
            e->u.termInfo->globalOccurrences = odr_intdup(o, r[i].second);
        }
        *s.numberOfEntriesReturned = r.size();
        if (scan_pos)
            s.positionOfTerm = odr_intdup(o, p);
    }
    Z_APDU *answer(Sess &x, mp::odr &m, Z_APDU *a, int f)
    {
        if (f == F_CLOSE)
            return m.create_close(a, Z_Close_systemProblem, "gone");
        if (!x.init && a->which != Z_APDU_initRequest)
            return m.create_close(a, Z_Close_protocolError, "no init");
        ODR o = m;
        switch (a->which)
        {
        case Z_APDU_initRequest:
        {
            Z_InitRequest *q = a->u.initRequest;
            if (q->idAuthentication
                && q->idAuthentication->which == Z_IdAuthentication_idPass)
                x.user = q->idAuthentication->u.idPass->userId;
            std::list<std::string> vh;
            Z_OtherInformation *oi = q->otherInfo;
            ODR t = odr_createmem(ODR_DECODE);
            mp::util::get_vhost_otherinfo(oi, vh);
            odr_destroy(t);
            if (vh.size())
                x.vhost = vh.front();
            if (f)
            {
                Z_APDU *r = m.create_initResponse(a, f == F_TEMP ? 2 : 1014, "no");
                *r->u.initResponse->result = 0;
                return r;
            }
            x.init = true;
            Z_APDU *r = m.create_initResponse(a, 0, 0);
            Z_InitResponse *s = r->u.initResponse;
            for (int i : { Z_Options_search, Z_Options_present, Z_Options_scan })
                ODR_MASK_SET(s->options, i);
            if (named)
                ODR_MASK_SET(s->options, Z_Options_namedResultSets);
            for (int i = 0; i < 3; i++)
                ODR_MASK_SET(s->protocolVersion, i);
            return r;
        }
        case Z_APDU_searchRequest:
        {
            Z_SearchRequest *q = a->u.searchRequest;
            std::string rs = q->resultSetName;
            if (!named && rs != "default")
                return m.create_searchResponse(a, 22, "no named result sets");
            if (!*q->replaceIndicator && x.sets.count(rs))
                return m.create_searchResponse(a, 21, 0);
            x.sets.erase(rs);
            if (f == F_MULTI || f == F_MULTI0)
            {
                Z_APDU *r = m.create_searchResponse(a, 0, 0);
                *r->u.searchResponse->searchStatus = 0;
                r->u.searchResponse->records = multi(o, f == F_MULTI ? 2 : 0);
                return r;
            }
            if (f)
                return m.create_searchResponse(a, f == F_TEMP ? 2 : 114, "bad");
            std::string bad;
            Z_Query *qq = yaz_copy_Z_Query(q->query, o);
            Set st;
            for (int i = 0; i < q->num_databaseNames; i++)
                st.dbs.push_back(q->databaseNames[i]);
            if ((qq->which == Z_Query_type_1 || qq->which == Z_Query_type_101)
                && !expand(x, o, qq->u.type_1->RPNStructure, bad,
                           same_db ? &st.dbs : 0))
                return m.create_searchResponse(
                    a, YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST, bad.c_str());
            st.q = pqf(qq);
            st.hits = hits(st.dbs, st.q);
            if (st.hits <= -100)        // a query the server rejects
                return m.create_searchResponse(a, (int) -st.hits, "bad");
            x.sets[rs] = st;
            if (max_sets && x.sets.size() > max_sets)
                mc::fail("max-sets", "%d result sets on one backend session "
                         "(limit %d)", (int) x.sets.size(), (int) max_sets);
            Z_APDU *r = m.create_searchResponse(a, 0, 0);
            *r->u.searchResponse->resultCount = st.hits;
            // small result sets: records along with the response
            long piggy = 0;
            if (st.hits <= *q->smallSetUpperBound)
                piggy = st.hits;
            else if (st.hits < *q->largeSetLowerBound)
                piggy = std::min<long>(st.hits, *q->mediumSetPresentNumber);
            if (piggy > 0)
            {
                Z_ElementSetNames *e = st.hits <= *q->smallSetUpperBound
                    ? q->smallSetElementSetNames : q->mediumSetElementSetNames;
                r->u.searchResponse->records =
                    get(o, st, 1, piggy, e && e->which == Z_ElementSetNames_generic
                        ? e->u.generic : "", q->preferredRecordSyntax);
                *r->u.searchResponse->numberOfRecordsReturned = piggy;
            }
            if (st.hits)
                *r->u.searchResponse->nextResultSetPosition =
                    piggy >= st.hits ? 0 : piggy + 1;
            return r;
        }
        case Z_APDU_presentRequest:
        {
            Z_PresentRequest *q = a->u.presentRequest;
            auto it = x.sets.find(q->resultSetId);
            if (it == x.sets.end())
                return m.create_presentResponse(
                    a, YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST,
                    q->resultSetId);
            if (f == F_MULTI || f == F_MULTI0)
            {
                Z_APDU *r = m.create_presentResponse(a, 0, 0);
                *r->u.presentResponse->presentStatus = Z_PresentStatus_failure;
                r->u.presentResponse->records = multi(o, f == F_MULTI ? 2 : 0);
                return r;
            }
            if (f && f != F_SHORT)
                return m.create_presentResponse(a, f == F_TEMP ? 2 : 14, "bad");
            long st = *q->resultSetStartPoint, n = *q->numberOfRecordsRequested;
            if (st < 1 || n < 0 || st + n - 1 > it->second.hits)
                return m.create_presentResponse(
                    a, YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, 0);
            if (f == F_SHORT && n > 0)
                n--;                    // fewer records than asked for
            Z_APDU *r = m.create_presentResponse(a, 0, 0);
            Z_PresentResponse *s = r->u.presentResponse;
            s->records = get(o, it->second, st, n, comp(q->recordComposition),
                             q->preferredRecordSyntax);
            *s->numberOfRecordsReturned = n;
            *s->nextResultSetPosition = st + n;
            return r;
        }
        case Z_APDU_scanRequest:
        {
            Z_ScanRequest *q = a->u.scanRequest;
            if (f)
                return m.create_scanResponse(a, f == F_TEMP ? 2 : 228, "bad");
            Z_APDU *r = m.create_scanResponse(a, 0, 0);
            Z_ScanResponse *s = r->u.scanResponse;
            if (terms)
            {
                scan(m, *q, *s);
                return r;
            }
            s->entries = (Z_ListEntries *) odr_malloc(o, sizeof(Z_ListEntries));
            memset(s->entries, 0, sizeof *s->entries);
            s->entries->num_entries = 1;
            s->entries->entries = (Z_Entry **) odr_malloc(o, sizeof(Z_Entry *));
            Z_Entry *e = s->entries->entries[0] =
                (Z_Entry *) odr_malloc(o, sizeof(Z_Entry));
            e->which = Z_Entry_termInfo;
            e->u.termInfo = (Z_TermInfo *) odr_malloc(o, sizeof(Z_TermInfo));
            memset(e->u.termInfo, 0, sizeof(Z_TermInfo));
            e->u.termInfo->term = (Z_Term *) odr_malloc(o, sizeof(Z_Term));
            e->u.termInfo->term->which = Z_Term_general;
            std::string t = std::string(q->num_databaseNames
                                        ? q->databaseNames[0] : "") + "-"
                + zh::str(q->termListAndStartPoint->term->u.general);
            e->u.termInfo->term->u.general = oct(o, t);
            e->u.termInfo->globalOccurrences = odr_intdup(o, 4);
            *s->numberOfEntriesReturned = 1;
            return r;
        }
        case Z_APDU_close:
            return m.create_close(a, Z_Close_finished, 0);
        case Z_APDU_deleteResultSetRequest:
        {
            Z_APDU *r = zget_APDU(o, Z_APDU_deleteResultSetResponse);
            x.sets.clear();
            set_ref(o, r, get_ref(a));
            return r;
        }
        }
        return m.create_close(a, Z_Close_protocolError, "unsupported");
    }
};
}
#endif
