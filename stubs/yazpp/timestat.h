#ifndef YAZPP_TIMESTAT_STUB
#define YAZPP_TIMESTAT_STUB
#include <stddef.h>
namespace yazpp_1 {
    class TimeStat {
    public:
        TimeStat(); TimeStat(size_t period); TimeStat(const TimeStat &); ~TimeStat();
        TimeStat &operator=(const TimeStat &);
        void add_bytes(int m);
        int get_total();
    };
}
#endif
