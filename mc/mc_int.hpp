#ifndef MC_INT_HPP
#define MC_INT_HPP
#include <string>
namespace mc {
    void sched_init();
    void crash_sig(const std::string &s);
    // vector-clock race detection hooks (race flavour only)
    void race_access(const void *p, int size, bool write, void *pc);
    void race_free(void *p, unsigned long size);
    void race_malloc(void *p, unsigned long size);
    void race_alloc(void *p, unsigned long size);
    extern bool race_enabled;
}
#endif
