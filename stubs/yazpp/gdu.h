// Declaration-only stand-in for YAZ++ (not installed here): enough for the
// static analyser to type-check every metaproxy source file.
#ifndef YAZPP_GDU_STUB
#define YAZPP_GDU_STUB
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <list>
#include <string>
namespace yazpp_1 {
    class GDU {
        Z_GDU *m_gdu;
        ODR m_decode;
        void base(Z_GDU *gdu, ODR o);
    public:
        GDU(Z_GDU *gdu);
        GDU(Z_APDU *apdu);
        GDU();
        GDU(const GDU &g);
        ~GDU();
        GDU &operator=(const GDU &g);
        Z_GDU *get() const;
        void move_away_gdu(GDU &g);
        void extract_odr_to(ODR dst);
        int get_size();
    };
    class GDUQueue {
    public:
        bool empty();
        void push(GDU *gdu);
        GDU *pop();
        GDUQueue(); ~GDUQueue();
    };
}
#endif
