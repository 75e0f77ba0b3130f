#ifndef YAZPP_SOCKMAN_STUB
#define YAZPP_SOCKMAN_STUB
#include <yazpp/socket-observer.h>
namespace yazpp_1 {
    class SocketManager : public ISocketObservable {
    public:
        void addObserver(int fd, ISocketObserver *observer);
        void deleteObserver(ISocketObserver *observer);
        void deleteObservers();
        void maskObserver(ISocketObserver *observer, int mask);
        void timeoutObserver(ISocketObserver *observer, int timeout);
        int processEvent();
        int getNumberOfObservers();
        SocketManager();
        ~SocketManager();
    };
}
#endif
