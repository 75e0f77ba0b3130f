#ifndef YAZPP_ZASSOC_STUB
#define YAZPP_ZASSOC_STUB
#include <yazpp/pdu-observer.h>
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <stdio.h>
namespace yazpp_1 {
    class Z_Assoc : public IPDU_Observer {
    public:
        Z_Assoc(IPDU_Observable *the_PDU_Observable);
        virtual ~Z_Assoc();
        void recv_PDU(const char *buf, int len);
        virtual void recv_GDU(Z_GDU *apdu, int len) = 0;
        int send_Z_PDU(Z_APDU *apdu, int *len);
        int send_GDU(Z_GDU *gdu, int *len);
        Z_APDU *create_Z_PDU(int type);
        ODR odr_encode();
        ODR odr_decode();
        ODR odr_print();
        void set_APDU_log(const char *fname);
        void set_APDU_yazlog(int v);
        int encode_GDU(Z_GDU *apdu, char **buf, int *len);
        void close();
        int client(const char *addr);
        int server(const char *addr);
        void timeout(int timeout);
        void idleTime(int timeout);
        const char *get_hostname();
        const char *getpeername();
        void shutdown();
        void get_peername(char *, size_t);
    };
}
#endif
