// Messages of all kinds.
#ifndef MSGS_HPP
#define MSGS_HPP
#include "zh.hpp"
#include <yaz/sortspec.h>

static std::string bytes(Z_GDU *g)
{
    if (!g)
        return "";
    ODR e = odr_createmem(ODR_ENCODE);
    int n = 0;
    std::string s = "unencodable";
    if (z_GDU(e, &g, 0, 0))
    {
        char *b = odr_getbuf(e, &n, 0);
        s.assign(b, n);
    }
    odr_destroy(e);
    return s;
}

// ---------------------------------------------------------------- messages
static Z_DefaultDiagFormat *ddf(ODR o, int code, const char *add, bool v3 = false)
{
    Z_DefaultDiagFormat *d = zget_DefaultDiagFormat(o, code, add);
    if (v3)
        d->which = Z_DefaultDiagFormat_v3Addinfo;
    return d;
}
static Z_DiagRec **diags(ODR o, int n, int kind)
{
    Z_DiagRec **r = (Z_DiagRec **) odr_malloc(o, sizeof(*r) * (n + 1));
    for (int i = 0; i <= n; i++)
    {
        r[i] = (Z_DiagRec *) odr_malloc(o, sizeof(**r));
        r[i]->which = Z_DiagRec_defaultFormat;
        r[i]->u.defaultFormat = ddf(o, 100 + i, "inf", kind == 1);
        if (kind == 2 && i == 0)
        {
            r[i]->which = Z_DiagRec_externallyDefined;
            r[i]->u.externallyDefined = z_ext_record_oid(o, yaz_oid_recsyn_xml, "<a/>", 4);
        }
    }
    return r;
}
static Z_Records *recs(ODR o, int kind)
{
    if (!kind)
        return 0;
    Z_Records *r = (Z_Records *) odr_malloc(o, sizeof *r);
    if (kind <= 2)
    {
        r->which = Z_Records_NSD;
        r->u.nonSurrogateDiagnostic = ddf(o, 114, kind == 1 ? "why" : "", kind == 2);
    }
    else if (kind <= 6)
    {
        r->which = Z_Records_multipleNSD;
        r->u.multipleNonSurDiagnostics = (Z_DiagRecs *) odr_malloc(o, sizeof(Z_DiagRecs));
        int n = kind == 3 ? 0 : kind == 4 ? 2 : 1;
        r->u.multipleNonSurDiagnostics->num_diagRecs = n;
        r->u.multipleNonSurDiagnostics->diagRecs = diags(o, n, kind - 4);
    }
    else
        r = zh::recs(o, kind == 7 ? std::vector<Z_NamePlusRecord *>()
                     : std::vector<Z_NamePlusRecord *>{ zh::rec(o, "d", "<r/>",
                                                                yaz_oid_recsyn_xml) });
    return r;
}
enum { NRECS = 9 };

static Z_GDU *gdu(ODR o, Z_APDU *a)
{
    Z_GDU *g = (Z_GDU *) odr_malloc(o, sizeof *g);
    g->which = Z_GDU_Z3950;
    g->u.z3950 = a;
    return g;
}

// request i; what an access line should contain after the protocol
enum { NREQ = 41 };
static Z_GDU *request(ODR o, int i, std::string &want)
{
    Z_APDU *a = 0;
    want = "";
    if (i < 25)
    {
        a = zget_APDU(o, i + 1);
        switch (i + 1)
        {
        case Z_APDU_searchRequest: case Z_APDU_scanRequest:
        case Z_APDU_accessControlRequest: case Z_APDU_sortRequest:
        case Z_APDU_extendedServicesRequest: case Z_APDU_duplicateDetectionRequest:
            return 0;           // not complete: made below, or never sent
        }
        return gdu(o, a);
    }
    switch (i)
    {
    case 25:
        a = zh::init_req(o, "i", "h:1/d", "user", "pw");
        a->u.initRequest->implementationId = odr_strdup(o, "Id");
        a->u.initRequest->implementationName = odr_strdup(o, "Name");
        a->u.initRequest->implementationVersion = odr_strdup(o, "V1");
        want = "initRequest user h:1/d";
        break;
    case 26:
        a = zh::init_req(o, "", "");
        a->u.initRequest->idAuthentication = (Z_IdAuthentication *)
            odr_malloc(o, sizeof(Z_IdAuthentication));
        a->u.initRequest->idAuthentication->which = Z_IdAuthentication_open;
        a->u.initRequest->idAuthentication->u.open = odr_strdup(o, "u2/p");
        a->u.initRequest->implementationId = 0;
        a->u.initRequest->implementationName = 0;
        a->u.initRequest->implementationVersion = 0;
        want = "initRequest u2/p - - - -";
        break;
    case 27:
        a = zh::init_req(o, "", "", "u", "p");
        a->u.initRequest->idAuthentication->u.idPass->userId = 0;
        want = "initRequest - -";
        break;
    case 28:
        a = zh::init_req(o);
        a->u.initRequest->idAuthentication = (Z_IdAuthentication *)
            odr_malloc(o, sizeof(Z_IdAuthentication));
        a->u.initRequest->idAuthentication->which = Z_IdAuthentication_anonymous;
        a->u.initRequest->idAuthentication->u.anonymous = odr_nullval();
        want = "initRequest - -";
        break;
    case 29:
        a = zh::search_req(o, "@attr 1=4 term", "s", zh::v("a", "b"));
        want = "searchRequest a+b s - ";
        break;
    case 30:
        a = zh::search_req(o, "@set x", "default", zh::v("a"));
        a->u.searchRequest->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_usmarc);
        want = "searchRequest a default USmarc ";
        break;
    case 31:
        a = zh::search_req(o, "x", "r", {});
        a->u.searchRequest->query->which = Z_Query_type_2;
        a->u.searchRequest->query->u.type_2 = zh::oct(o, "ccl=x");
        want = "searchRequest";
        break;
    case 32:
        a = zh::search_req(o, "\"line1\nline2\"", "r", zh::v("a\nb"));
        want = "searchRequest a";
        break;
    case 33:
        a = zh::present_req(o, "s", 3, 7);
        want = "presentRequest s 3+7 - -";
        break;
    case 34:
        a = zh::present_req(o, "s", 1, 1, yaz_oid_recsyn_xml, "F");
        want = "presentRequest s 1+1 XML F";
        break;
    case 35:
        a = zh::present_req(o, "s", 1, 1, yaz_oid_recsyn_sutrs, "F");
        a->u.presentRequest->recordComposition->u.simple->which =
            Z_ElementSetNames_databaseSpecific;
        {
            Z_ElementSetNames *e = a->u.presentRequest->recordComposition->u.simple;
            e->u.databaseSpecific = (Z_DatabaseSpecific *)
                odr_malloc(o, sizeof(*e->u.databaseSpecific));
            e->u.databaseSpecific->num = 0;
            e->u.databaseSpecific->elements = (Z_DatabaseSpecificUnit **)
                odr_malloc(o, sizeof(void *));
        }
        want = "presentRequest s 1+1 SUTRS -";
        break;
    case 36:
        a = zh::scan_req(o, "d", "term", 20, 1);
        want = "scanRequest d 20 1 - ";
        break;
    case 37:
        a = zh::scan_req(o, "d", "a\r\nb", 1, 1);
        a->u.scanRequest->preferredPositionInResponse = 0;
        a->u.scanRequest->stepSize = odr_intdup(o, 2);
        want = "scanRequest d 1 - 2 ";
        break;
    case 38:
    {
        a = zget_APDU(o, Z_APDU_sortRequest);
        Z_SortRequest *r = a->u.sortRequest;
        r->num_inputResultSetNames = 2;
        r->inputResultSetNames = (char **) odr_malloc(o, 2 * sizeof(char *));
        r->inputResultSetNames[0] = odr_strdup(o, "in1");
        r->inputResultSetNames[1] = odr_strdup(o, "in2");
        r->sortedResultSetName = odr_strdup(o, "out");
        r->sortSequence = yaz_sort_spec(o, "1=4 i<");
        want = "sortRequest";
        break;
    }
    case 39:
        want = "GET /p?q";
        return zh::http_req(o, "/p?q");
    case 40:
        want = "POST /x";
        return zh::http_req(o, "/x", "POST", std::string(5000, 'b'));
    }
    return gdu(o, a);
}

enum { NRES = 25 + NRECS * 2 + 14 };
static Z_GDU *response(ODR o, int i, std::string &want)
{
    want = "";
    Z_APDU *a = 0;
    if (i < 25)
    {
        switch (i + 1)
        {
        case Z_APDU_searchRequest: case Z_APDU_scanRequest:
        case Z_APDU_accessControlRequest: case Z_APDU_sortRequest:
        case Z_APDU_extendedServicesRequest: case Z_APDU_duplicateDetectionRequest:
            return 0;
        }
        return gdu(o, zget_APDU(o, i + 1));
    }
    i -= 25;
    if (i < NRECS)
    {
        a = zget_APDU(o, Z_APDU_searchResponse);
        *a->u.searchResponse->resultCount = 17;
        *a->u.searchResponse->searchStatus = i == 0 || i >= 7;
        *a->u.searchResponse->numberOfRecordsReturned = i == 8;
        *a->u.searchResponse->nextResultSetPosition = i == 8 ? 2 : 0;
        a->u.searchResponse->records = recs(o, i);
        want = i == 0 || i == 7 ? "searchResponse OK 17 1+0 0" : i == 8
            ? "searchResponse OK 17 1+1 2" : "searchResponse ";
        return gdu(o, a);
    }
    i -= NRECS;
    if (i < NRECS)
    {
        a = zget_APDU(o, Z_APDU_presentResponse);
        *a->u.presentResponse->presentStatus = i == 0 || i >= 7 ? 0 : 5;
        *a->u.presentResponse->numberOfRecordsReturned = i == 8;
        *a->u.presentResponse->nextResultSetPosition = i == 8 ? 2 : 0;
        a->u.presentResponse->records = recs(o, i);
        want = i == 0 || i == 7 ? "presentResponse OK 0 0" : i == 8
            ? "presentResponse OK 1 2" : "presentResponse ";
        return gdu(o, a);
    }
    i -= NRECS;
    switch (i)
    {
    case 0:
        return 0;
    case 1:
        a = zget_APDU(o, Z_APDU_initResponse);
        *a->u.initResponse->result = 0;
        a->u.initResponse->userInformationField = 0;
        want = "initResponse FAIL";
        break;
    case 2:
        a = zget_APDU(o, Z_APDU_initResponse);
        *a->u.initResponse->result = 0;
        a->u.initResponse->userInformationField = zget_init_diagnostics(o, 1014, "user");
        want = "initResponse FAIL";
        break;
    case 3:
        a = zget_APDU(o, Z_APDU_initResponse);
        *a->u.initResponse->result = 0;
        a->u.initResponse->userInformationField = z_ext_record_oid(o, yaz_oid_recsyn_sutrs, "x", 1);
        a->u.initResponse->implementationId = 0;
        a->u.initResponse->implementationName = 0;
        a->u.initResponse->implementationVersion = 0;
        want = "initResponse FAIL - - -";
        break;
    case 4:
    case 5:
    case 6:
        a = zget_APDU(o, Z_APDU_scanResponse);
        *a->u.scanResponse->scanStatus = i == 4 ? Z_Scan_success : i == 5 ? Z_Scan_failure
            : Z_Scan_partial_5;
        *a->u.scanResponse->numberOfEntriesReturned = 4;
        a->u.scanResponse->positionOfTerm = i == 4 ? odr_intdup(o, 2) : 0;
        want = i == 4 ? "scanResponse OK 4 2" : "scanResponse ";
        break;
    case 7:
    case 8:
    case 9:
        a = zget_APDU(o, Z_APDU_sortResponse);
        *a->u.sortResponse->sortStatus = i - 7;
        a->u.sortResponse->num_diagnostics = i - 7;
        a->u.sortResponse->diagnostics = i == 7 ? 0 : diags(o, i - 7, i == 9 ? 2 : 0);
        want = "sortResponse";
        break;
    case 10:
        a = zget_APDU(o, Z_APDU_extendedServicesResponse);
        *a->u.extendedServicesResponse->operationStatus = 3;
        a->u.extendedServicesResponse->num_diagnostics = 1;
        a->u.extendedServicesResponse->diagnostics = diags(o, 1, 0);
        want = "extendedServicesResponse";
        break;
    case 11:
        a = zget_APDU(o, Z_APDU_duplicateDetectionResponse);
        a->u.duplicateDetectionResponse->num_diagnostics = 1;
        a->u.duplicateDetectionResponse->diagnostics = diags(o, 1, 1);
        want = "";
        break;
    case 12:
    {
        Z_GDU *g = z_get_HTTP_Response(o, 404);
        g->u.HTTP_Response->content_buf = odr_strdup(o, "body");
        g->u.HTTP_Response->content_len = 4;
        want = "404 4";
        return g;
    }
    case 13:
        want = "200 0";
        return z_get_HTTP_Response(o, 200);
    }
    return gdu(o, a);
}

#endif
