#ifndef YAZPP_SOCKET_MANAGER_H
#define YAZPP_SOCKET_MANAGER_H
#include <yazpp/socket-observer.h>
namespace yazpp_1 {
class SocketManager : public ISocketObservable {
  public:
    void addObserver(int fd, ISocketObserver *observer);
    void deleteObserver(ISocketObserver *observer);
    void deleteObservers();
    void maskObserver(ISocketObserver *observer, int mask);
    void timeoutObserver(ISocketObserver *observer, int timeout);
    int processEvent();
    int getNumberOfObservers();
    SocketManager();
    virtual ~SocketManager();
  private:
    SocketManager(const SocketManager &);
    SocketManager &operator=(const SocketManager &);
    class Rep;
    Rep *m_p;
};
}
#endif
