#ifndef YAZPP_LIMITCONN_STUB
#define YAZPP_LIMITCONN_STUB
#include <stddef.h>
namespace yazpp_1 {
    class LimitConnect {
    public:
        LimitConnect(); ~LimitConnect();
        void add_connect(const char *peername);
        int get_total(const char *peername);
        void set_period(int sec);
        void cleanup(bool all);
    };
}
#endif
