#ifndef YAZPP_TIMESTAT_STUB
#define YAZPP_TIMESTAT_STUB
#include <stddef.h>
namespace yazpp_1 {
    class TimeStat {
        int t;
    public:
        TimeStat() : t(0) {} TimeStat(size_t period) : t(0) {}
        void add_bytes(int m) { t += m; }
        int get_total() { return t; }
    };
}
#endif
