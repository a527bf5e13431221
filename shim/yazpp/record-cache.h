#ifndef SHIM_RECORD_CACHE_H
#define SHIM_RECORD_CACHE_H
#include <yaz/proto.h>
#include <list>
#include <string>
namespace yazpp_1 {
    struct RecordCache_Entry;
    class RecordCache {
    public:
        RecordCache();
        ~RecordCache();
        void add(ODR o, Z_NamePlusRecordList *npr, int start, int hits);
        void add(ODR o, Z_NamePlusRecordList *npr, int start,
                 Z_RecordComposition *comp);
        int lookup(ODR o, Z_NamePlusRecordList **npr, int start, int num,
                   Odr_oid *syntax, Z_RecordComposition *comp);
        void clear();
        void copy_searchRequest(Z_SearchRequest *sr);
        void copy_presentRequest(Z_PresentRequest *pr);
        void set_max_size(int sz);
    private:
        NMEM m_mem;
        std::list<RecordCache_Entry *> entries;
        Z_SearchRequest *m_searchRequest;
        Z_PresentRequest *m_presentRequest;
        int m_max_size;
        void add1(Z_NamePlusRecordList *npr, int start,
                  const std::string &comp);
        bool match(RecordCache_Entry *e, Odr_int position, Odr_oid *syntax,
                   Z_RecordComposition *comp);
        RecordCache(const RecordCache &);
        RecordCache &operator=(const RecordCache &);
    };
}
#endif
