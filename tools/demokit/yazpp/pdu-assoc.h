#ifndef YAZPP_PDU_ASSOC_H
#define YAZPP_PDU_ASSOC_H
#include <yaz/comstack.h>
#include <yazpp/socket-observer.h>
#include <yazpp/pdu-observer.h>
namespace yazpp_1 {
class PDU_Assoc : public IPDU_Observable, ISocketObserver {
    friend class PDU_Assoc_priv;
  public:
    PDU_Assoc(ISocketObservable *socketObservable);
    PDU_Assoc(ISocketObservable *socketObservable, COMSTACK cs);
    virtual ~PDU_Assoc();
    IPDU_Observable *clone();
    int send_PDU(const char *buf, int len);
    int connect(IPDU_Observer *observer, const char *addr);
    int listen(IPDU_Observer *observer, const char *addr);
    void socketNotify(int event);
    void shutdown();
    void destroy();
    void idleTime(int timeout);
    virtual void childNotify(COMSTACK cs);
    const char *getpeername();
    void close_session();
    COMSTACK get_comstack();
    void set_cert_fname(const char *fname);
  private:
    class Rep;
    Rep *m_p;
    IPDU_Observer *m_PDU_Observer;
    int flush_PDU();
    PDU_Assoc(const PDU_Assoc &);
    PDU_Assoc &operator=(const PDU_Assoc &);
};
}
#endif
