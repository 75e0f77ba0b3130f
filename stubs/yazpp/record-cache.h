#ifndef YAZPP_RECCACHE_STUB
#define YAZPP_RECCACHE_STUB
#include <yaz/proto.h>
#include <yaz/nmem.h>
namespace yazpp_1 {
    class RecordCache {
    public:
        RecordCache();
        ~RecordCache();
        void add(ODR o, Z_NamePlusRecordList *npr, int start,
                 Z_RecordComposition *comp);
        int lookup(ODR o, Z_NamePlusRecordList **npr, int start, int num,
                   Odr_oid *syntax, Z_RecordComposition *comp);
        void clear();
        void copy_searchRequest(Z_SearchRequest *sr);
        void copy_presentRequest(Z_PresentRequest *pr);
        void set_max_size(int sz);
    };
}
#endif
