#ifndef YAZPP_RECORD_CACHE_H
#define YAZPP_RECORD_CACHE_H
#include <yaz/nmem.h>
#include <yaz/proto.h>
namespace yazpp_1 {
struct RecordCache_Entry;
class RecordCache {
  public:
    RecordCache();
    ~RecordCache();
    void add(ODR o, Z_NamePlusRecordList *npr, Odr_int start,
             Z_RecordComposition *comp);
    int lookup(ODR o, Z_NamePlusRecordList **npr, Odr_int start, int num,
               Odr_oid *syntax, Z_RecordComposition *comp);
    void clear();
    void copy_searchRequest(Z_SearchRequest *sr);
    void copy_presentRequest(Z_PresentRequest *pr);
    void set_max_size(int sz);
  private:
    NMEM m_mem;
    RecordCache_Entry *m_entries;
    Z_SearchRequest *m_searchRequest;
    Z_PresentRequest *m_presentRequest;
    int match(RecordCache_Entry *entry, Odr_oid *syntax, Odr_int offset,
              Z_RecordComposition *comp);
    int m_max_size;
};
}
#endif
