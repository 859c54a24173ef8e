#ifndef YAZPP_Z_QUERY_H
#define YAZPP_Z_QUERY_H
#include <yaz/proto.h>
#include <yaz/odr.h>
namespace yazpp_1 {
class Yaz_Z_Query {
  public:
    Yaz_Z_Query();
    Yaz_Z_Query(const Yaz_Z_Query &q);
    virtual ~Yaz_Z_Query();
    int set_rpn(const char *rpn);
    void set_Z_Query(Z_Query *z_query);
    Z_Query *get_Z_Query();
    void print(char *str, size_t len);
    int match(const Yaz_Z_Query *other);
    Yaz_Z_Query &operator=(const Yaz_Z_Query &);
  private:
    char *m_buf;
    int m_len;
    ODR odr_decode, odr_encode, odr_print;
};
}
#endif
