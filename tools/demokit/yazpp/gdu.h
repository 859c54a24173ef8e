// Stand-in for YAZ++'s gdu.h (the third-party library is not installed here).
#ifndef YAZPP_GDU_H
#define YAZPP_GDU_H
#include <yaz/proto.h>
#include <yaz/wrbuf.h>
#include <yaz/zgdu.h>
#include <yaz/log.h>
#include <yaz/yaz-version.h>
#include <yaz/zgdu.h>
namespace yazpp_1 {
class GDU {
    Z_GDU *m_gdu;
    ODR m_decode;
    int m_size;
    void base(Z_GDU *gdu, ODR o);
  public:
    GDU(Z_APDU *apdu);
    GDU(Z_GDU *gdu);
    GDU();
    GDU(const GDU &g);
    ~GDU();
    GDU &operator=(const GDU &g);
    GDU &operator=(Z_APDU *apdu);
    GDU &operator=(Z_GDU *gdu);
    Z_GDU *get() const { return m_gdu; }
    int get_size() const { return m_size; }
};
}
#endif
