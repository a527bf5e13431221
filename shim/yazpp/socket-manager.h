#ifndef SHIM_SOCKET_MANAGER_H
#define SHIM_SOCKET_MANAGER_H
#include <yazpp/socket-observer.h>
#include <stdint.h>
namespace yazpp_1 {
    class SocketManager : public ISocketObservable {
    public:
        class SMRep;
        SMRep *m_p;
        virtual void addObserver(int fd, ISocketObserver *observer);
        virtual void deleteObserver(ISocketObserver *observer);
        virtual void deleteObservers();
        virtual void maskObserver(ISocketObserver *observer, int mask);
        virtual void timeoutObserver(ISocketObserver *observer, int timeout);
        int processEvent();
        int getNumberOfObservers();
        SocketManager();
        virtual ~SocketManager();
    private:
        SocketManager(const SocketManager &);
        SocketManager &operator=(const SocketManager &);
    };
}
#endif
