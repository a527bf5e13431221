#ifndef SHIM_QUERY_H
#define SHIM_QUERY_H
#include <stddef.h>
namespace yazpp_1 {
    class Yaz_Query {
    public:
        virtual ~Yaz_Query() {}
        virtual void print(char *s, size_t max_len) = 0;
        virtual int match(const Yaz_Query *other) = 0;
    };
}
#endif
