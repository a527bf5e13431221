#ifndef SHIM_CQL2RPN_H
#define SHIM_CQL2RPN_H
#include <yaz/cql.h>
#include <yaz/rpn2cql.h>
#include <yaz/srw.h>
#include <yaz/proto.h>
namespace yazpp_1 {
    class Yaz_cql2rpn {
    public:
        Yaz_cql2rpn();
        ~Yaz_cql2rpn();
        void set_pqf_file(const char *fname);
        bool parse_spec_file(const char *fname, int *error);
        int query_transform(const char *cql, Z_RPNQuery **rpnquery,
                            ODR o, char **addinfop);
        int rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o,
                              char **addinfo);
    private:
        cql_transform_t m_transform;
    };
}
#endif
