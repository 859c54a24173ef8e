#ifndef YAZPP_Z_ASSOC_H
#define YAZPP_Z_ASSOC_H
#include <yaz/proto.h>
#include <yaz/odr.h>
#include <yaz/zgdu.h>
#include <yazpp/pdu-observer.h>
namespace yazpp_1 {
class Z_Assoc : public IPDU_Observer {
  public:
    Z_Assoc(IPDU_Observable *the_PDU_Observable);
    virtual ~Z_Assoc();
    void recv_PDU(const char *buf, int len);
    virtual void connectNotify() = 0;
    virtual void failNotify() = 0;
    virtual void timeoutNotify() = 0;
    void timeout(int timeout);
    int client(const char *addr);
    int server(const char *addr);
    void close();
    virtual void recv_GDU(Z_GDU *apdu, int len) = 0;
    int send_GDU(Z_GDU *apdu, int *len);
    int send_Z_PDU(Z_APDU *apdu, int *len);
    ODR odr_encode() { return m_odr_out; }
    ODR odr_decode() { return m_odr_in; }
    ODR odr_print() { return m_odr_print; }
    void set_apdu_log(const char *) {}
    const char *get_apdu_log() { return 0; }
    const char *get_hostname() { return m_hostname; }
  private:
    Z_GDU *decode_GDU(const char *buf, int len);
    int encode_GDU(Z_GDU *apdu, char **buf, int *len);
    IPDU_Observable *m_PDU_Observable;
    ODR m_odr_in, m_odr_out, m_odr_print;
    char *m_hostname;
    Z_Assoc(const Z_Assoc &);
    Z_Assoc &operator=(const Z_Assoc &);
};
}
#endif
