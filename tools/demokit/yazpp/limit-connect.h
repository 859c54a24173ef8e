#ifndef YAZPP_LIMIT_CONNECT_H
#define YAZPP_LIMIT_CONNECT_H
#include <yazpp/timestat.h>
namespace yazpp_1 {
class LimitConnect {
  public:
    LimitConnect();
    ~LimitConnect();
    void add_connect(const char *peername);
    int get_total(const char *peername);
    void set_period(int sec);
    void cleanup(bool all);
  private:
    LimitConnect(const LimitConnect &);
    LimitConnect &operator=(const LimitConnect &);
    class Rep;
    Rep *m_p;
};
}
#endif
