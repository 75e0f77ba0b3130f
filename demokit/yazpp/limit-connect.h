#ifndef YAZPP_LIMITCONN_STUB
#define YAZPP_LIMITCONN_STUB
#include <map>
#include <string>
namespace yazpp_1 {
    class LimitConnect {
        std::map<std::string, int> m;
    public:
        void add_connect(const char *peername) { m[peername]++; }
        int get_total(const char *peername) { return m[peername]; }
        void set_period(int sec) {}
        void cleanup(bool all) {}
    };
}
#endif
