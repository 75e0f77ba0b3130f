// Working stand-in for the YAZ++ class of this name (YAZ++ is not installed here).
#ifndef YAZPP_GDU_STUB
#define YAZPP_GDU_STUB
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <list>
#include <string>
#include <string.h>
namespace yazpp_1 {
    class GDU {
        Z_GDU *m_gdu;
        ODR m_decode;
        void base(Z_GDU *gdu, ODR enc) {
            m_decode = odr_createmem(ODR_DECODE);
            m_gdu = 0;
            if (gdu && z_GDU(enc, &gdu, 0, "encode")) {
                int len; char *buf = odr_getbuf(enc, &len, 0);
                char *b = (char *) odr_malloc(m_decode, len + 1);
                memcpy(b, buf, len); b[len] = 0;
                odr_setbuf(m_decode, b, len, 0);
                if (!z_GDU(m_decode, &m_gdu, 0, 0)) m_gdu = 0;
            }
        }
    public:
        GDU(Z_GDU *gdu) { ODR e = odr_createmem(ODR_ENCODE); base(gdu, e); odr_destroy(e); }
        GDU(Z_APDU *apdu) {
            ODR e = odr_createmem(ODR_ENCODE);
            Z_GDU *g = 0;
            if (apdu) {
                g = (Z_GDU *) odr_malloc(e, sizeof(*g));
                g->which = Z_GDU_Z3950; g->u.z3950 = apdu;
            }
            base(g, e); odr_destroy(e);
        }
        GDU() { base(0, 0); }
        GDU(const GDU &g) { ODR e = odr_createmem(ODR_ENCODE); base(g.get(), e); odr_destroy(e); }
        ~GDU() { odr_destroy(m_decode); }
        GDU &operator=(const GDU &g) {
            if (this != &g) {
                odr_destroy(m_decode);
                ODR e = odr_createmem(ODR_ENCODE); base(g.get(), e); odr_destroy(e);
            }
            return *this;
        }
        Z_GDU *get() const { return m_gdu; }
        void move_away_gdu(GDU &g) { ODR d = m_decode; Z_GDU *p = m_gdu; m_decode = g.m_decode; m_gdu = g.m_gdu; g.m_decode = d; g.m_gdu = p; }
        void extract_odr_to(ODR dst) { NMEM n = odr_extract_mem(m_decode); nmem_transfer(odr_getmem(dst), n); nmem_destroy(n); }
        int get_size() { return 0; }
    };
    class GDUQueue {
        std::list<GDU *> l;
    public:
        bool empty() { return l.empty(); }
        void push(GDU *gdu) { l.push_back(gdu); }
        GDU *pop() { if (l.empty()) return 0; GDU *g = l.front(); l.pop_front(); return g; }
    };
}
#endif
