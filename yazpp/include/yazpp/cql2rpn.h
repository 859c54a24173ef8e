#ifndef YAZPP_CQL2RPN_H
#define YAZPP_CQL2RPN_H
#include <yaz/cql.h>
#include <yaz/z-core.h>
#include <yaz/rpn2cql.h>
#include <yaz/wrbuf.h>
namespace yazpp_1 {
class Yaz_cql2rpn {
  public:
    Yaz_cql2rpn();
    ~Yaz_cql2rpn();
    bool parse_spec_file(const char *fname, int *error);
    int query_transform(const char *cql, Z_RPNQuery **rpnquery, ODR o,
                        char **addinfop);
    int rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o, char **addinfop);
  private:
    cql_transform_t m_transform;
};
}
#endif
