#ifndef YAZPP_ZQUERY_STUB
#define YAZPP_ZQUERY_STUB
#include <yaz/proto.h>
#include <yaz/pquery.h>
#include <string>
#include <string.h>
namespace yazpp_1 {
    class Yaz_Z_Query {
        std::string enc;
        ODR dec;
        static std::string encode(Z_Query *q) {
            std::string r;
            ODR e = odr_createmem(ODR_ENCODE);
            if (q && z_Query(e, &q, 0, 0)) { int len; char *b = odr_getbuf(e, &len, 0); r = std::string(b, len); }
            odr_destroy(e);
            return r;
        }
    public:
        Yaz_Z_Query() : dec(odr_createmem(ODR_DECODE)) {}
        Yaz_Z_Query(const Yaz_Z_Query &o) : enc(o.enc), dec(odr_createmem(ODR_DECODE)) {}
        virtual ~Yaz_Z_Query() { odr_destroy(dec); }
        int set_rpn(const char *rpn) {
            ODR o = odr_createmem(ODR_ENCODE);
            Z_RPNQuery *r = p_query_rpn(o, rpn);
            if (r) {
                Z_Query *q = (Z_Query *) odr_malloc(o, sizeof(*q));
                q->which = Z_Query_type_1; q->u.type_1 = r;
                enc = encode(q);
            }
            odr_destroy(o);
            return r ? 0 : -1;
        }
        void set_Z_Query(Z_Query *q) { enc = encode(q); }
        Z_Query *get_Z_Query() const {
            Z_Query *q = 0;
            if (enc.empty()) return 0;
            odr_reset(dec);
            char *b = (char *) odr_malloc(dec, enc.size()); memcpy(b, enc.data(), enc.size());
            odr_setbuf(dec, b, enc.size(), 0);
            z_Query(dec, &q, 0, 0);
            return q;
        }
        void print(char *str, size_t len) { if (len) *str = 0; }
        bool match(const Yaz_Z_Query *o) { return enc == o->enc; }
        Yaz_Z_Query &operator=(const Yaz_Z_Query &o) { enc = o.enc; return *this; }
    };
}
#endif
