#ifndef SHIM_LIMIT_CONNECT_H
#define SHIM_LIMIT_CONNECT_H
#include <map>
#include <string>
#include <yazpp/timestat.h>
namespace yazpp_1 {
    class LimitConnect {
    public:
        LimitConnect();
        ~LimitConnect();
        void add_connect(const char *peername);
        int get_total(const char *peername);
        void set_period(int sec);
        void cleanup(bool all);
    private:
        int m_period;
        std::map<std::string, TimeStat *> m_peers;
        LimitConnect(const LimitConnect &);
        LimitConnect &operator=(const LimitConnect &);
    };
}
#endif
