// Large presents in chunks.
// ONLY: filter_present_chunk package session origin filter util xmlutil router_chain
#include "zh.hpp"
#include "filter_present_chunk.hpp"

enum { OK, DIAG, MULTI, CLOSE, DROP, SILENT, EMPTY, MORE, WRONG, NREPLY };
static const char *const rnames[] = { "ok", "diagnostic", "diagnostics", "Close",
    "lost", "silent", "no records", "too many records", "search response" };

static std::string body(long i) { return "r" + std::to_string(i); }

MC_SCENARIO(pc_present, 0)
{
    zh::quiet();
    int chunk = mc::choose(4);
    int size = mc::choose(mc::param("size", 6) + 1);
    int cap = mc::choose(3);
    int start = 1 + mc::choose(3);
    static const long ns[] = { 1, 2, 3, 4, 5, 7, 0, -1, -1000, 1L << 40 };
    long n = ns[mc::choose(10)];
    std::string out;
    {
        mp::RouterChain r;
        yf::PresentChunk f;
        zh::Fn s;
        r.append(f);
        r.append(s);
        zh::configure(f, "<f><chunk>" + std::to_string(chunk) + "</chunk></f>");
        long got = 0, asked = 0;    // records sent, requests
        int last = OK;
        bool more = false;
        std::vector<std::string> sent;
        s.f = [&](mp::Package &p) {
            Z_GDU *g = p.request().get();
            if (!g)
                return;
            mp::odr o;
            ODR od = o;
            Z_APDU *a = g->u.z3950;
            Z_PresentRequest *q = a->u.presentRequest;
            long b = *q->resultSetStartPoint, k = *q->numberOfRecordsRequested;
            if (++asked > 20)
                mc::fail("endless", "more than 20 presents for one of %ld", n);
            if (std::string(q->resultSetId) != "s" || !q->preferredRecordSyntax
                || oid_oidcmp(q->preferredRecordSyntax, yaz_oid_recsyn_sutrs)
                || !q->recordComposition || zh::get_ref(a) != "r")
                mc::fail("request", "present relayed as %s", zh::desc(g).c_str());
            if (last != OK)
                mc::fail("after", "present after one answered with %s",
                         rnames[last]);
            if (chunk == 0 || n <= 0)
            {
                if (b != start || k != n)
                    mc::fail("relay", "present %d+%ld relayed as %ld+%ld", start, n,
                             b, k);
            }
            else if (k < 1 || k > chunk || b != start + got || got + k > n)
                mc::fail("part", "present of %ld+%ld for %d+%ld in chunks of %d, "
                         "%ld records sent so far", b, k, start, n, chunk, got);
            last = mc::choose(NREPLY, mc::FAULT);
            Z_APDU *res = o.create_presentResponse(a, 0, 0);
            Z_PresentResponse *z = res->u.presentResponse;
            switch (last)
            {
            case DIAG:
                res = o.create_presentResponse(a, 2, "dd");
                break;
            case MULTI:
            {
                z->records = (Z_Records *) odr_malloc(od, sizeof(Z_Records));
                z->records->which = Z_Records_multipleNSD;
                Z_DiagRecs *d = (Z_DiagRecs *) odr_malloc(od, sizeof *d);
                d->num_diagRecs = 1;
                d->diagRecs = (Z_DiagRec **) odr_malloc(od, sizeof(void *));
                d->diagRecs[0] = zget_DiagRec(od, 2, "mm");
                z->records->u.multipleNonSurDiagnostics = d;
                break;
            }
            case CLOSE:
                p.response() = o.create_close(a, Z_Close_systemProblem, "gone");
                p.session().close();
                return;
            case DROP:
                p.session().close();
                return;
            case SILENT:
                return;
            case EMPTY:
                z->records = zh::recs(od, {});
                break;
            case WRONG:
                res = o.create_searchResponse(a, 0, 0);
                break;
            default:
                if (b + k - 1 > size && k > 0)
                {
                    last = DIAG;
                    res = o.create_presentResponse(a, 13, 0);
                    break;
                }
                long m = k;
                if (last == MORE)
                    m = k + 2, more = true;
                else if (cap && m > cap)
                    m = cap;
                std::vector<Z_NamePlusRecord *> v;
                for (long i = 0; i < m; i++)
                {
                    v.push_back(zh::rec(od, "db", body(b + i)));
                    sent.push_back("[db]" + body(b + i));
                    if (got < n)
                        got++;
                }
                if (m > 0)
                    z->records = zh::recs(od, v);
                *z->numberOfRecordsReturned = m > 0 ? m : 0;
                *z->nextResultSetPosition = b + m <= size ? b + m : 0;
                *z->presentStatus = m < k ? Z_PresentStatus_partial_2 : 0;
                if (last == MORE)
                    last = OK;
            }
            p.response() = res;
        };
        zh::Client c(r);
        ODR o = odr_createmem(ODR_ENCODE);
        std::string want, have;
        Z_APDU *a = zh::present_req(o, "s", start, (int) n, yaz_oid_recsyn_sutrs,
                                    "F", "r");
        *a->u.presentRequest->numberOfRecordsRequested = n;
        std::string res = c.send(a, [&](mp::Package &p) {
            Z_GDU *g = p.response().get();
            if (!g || g->u.z3950->which != Z_APDU_presentResponse)
                return;
            Z_PresentResponse *z = g->u.z3950->u.presentResponse;
            long m = 0;
            if (z->records && z->records->which == Z_Records_DBOSD)
                m = z->records->u.databaseOrSurDiagnostics->num_records;
            if (*z->numberOfRecordsReturned != m)
                mc::fail("count", "answer with %ld records claims %ld", m,
                         (long) *z->numberOfRecordsReturned);
            if (n > 0 && chunk && m == n)
            {
                long next = *z->nextResultSetPosition, e = start + n;
                if (*z->presentStatus != Z_PresentStatus_success)
                    mc::fail("status", "complete answer has status %ld",
                             (long) *z->presentStatus);
                if (!more && next != e && !(next == 0 && e > size))
                    mc::fail("next", "next position %ld after %d+%ld of %d", next,
                             start, n, size);
            }
        });
        odr_destroy(o);
        mc::evaluated();
        bool ref = res.find("#r") != std::string::npos;
        if (c.closed != (last == CLOSE || last == DROP))
            mc::fail("closed", "last answer was %s, got %s", rnames[last],
                     res.c_str());
        if (last == CLOSE && res.compare(0, 12, "close:2:gone"))
            mc::fail("close", "Close not passed on but %s", res.c_str());
        if (last != DROP && last != SILENT && !ref)
            mc::fail("reference", "answer without reference id: %s", res.c_str());
        if (chunk && n > 0)
        {
            std::string l;
            size_t m = 0;
            for (auto &x : sent)
                if (m < (size_t) n)
                    l += (m++ ? "," : "") + x;
            std::string list = "recs(" + l + ")";
            bool has = res.find(list) != std::string::npos;
            if (last == DIAG || last == MULTI)
            {
                if (res.find("d:13:") == std::string::npos
                    && res.find("d:2:") == std::string::npos)
                    mc::fail("diagnostic", "diagnostic not passed on but %s",
                             res.c_str());
            }
            else if (last == OK || (last == EMPTY && got))
            {
                if (last == OK && got < n)
                    mc::fail("part", "%ld of %ld records asked for", got, n);
                if (!has)
                    mc::fail("records", "answer %s instead of %s", res.c_str(),
                             list.c_str());
            }
            else if (res.find("recs(r") != std::string::npos)
                mc::fail("records", "records in answer to %s", rnames[last]);
        }
        c.close();
        out = res;
    }
    mc::outcome(out);
    mc::state(out);
}
