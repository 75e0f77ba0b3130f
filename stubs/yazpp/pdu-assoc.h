#ifndef YAZPP_PDUASSOC_STUB
#define YAZPP_PDUASSOC_STUB
#include <yazpp/pdu-observer.h>
#include <yazpp/socket-observer.h>
#include <yaz/comstack.h>
namespace yazpp_1 {
    class PDU_Assoc : public IPDU_Observable, public ISocketObserver {
    public:
        PDU_Assoc(ISocketObservable *socketObservable);
        PDU_Assoc(ISocketObservable *socketObservable, COMSTACK cs);
        virtual ~PDU_Assoc();
        IPDU_Observable *clone();
        int send_PDU(const char *buf, int len);
        int connect(IPDU_Observer *observer, const char *addr);
        int listen(IPDU_Observer *observer, const char *addr);
        void close_session();
        void shutdown();
        void destroy();
        void idleTime(int timeout);
        const char *getpeername();
        void socketNotify(int event);
        void set_cert_fname(const char *fname);
        COMSTACK get_comstack();
        void limit_send_size(size_t, size_t);
    };
}
#endif
