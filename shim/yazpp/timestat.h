#ifndef SHIM_TIMESTAT_H
#define SHIM_TIMESTAT_H
#include <time.h>
namespace yazpp_1 {
    class TimeStat {
    public:
        TimeStat(int sz = 60);
        TimeStat(const TimeStat &);
        TimeStat &operator=(const TimeStat &);
        ~TimeStat();
        void add_bytes(int b);
        int get_total();
    private:
        int *m_bucket;
        long m_sec, m_ptr, m_size;
    };
}
#endif
