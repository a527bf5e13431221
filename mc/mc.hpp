// Bounded exhaustive explorer + controlled scheduler.  See DESIGN.md.
#ifndef MC_HPP
#define MC_HPP
#include <stdint.h>
#include <stdarg.h>
#include <string>
#include <functional>

namespace mc {
    // Budgets for deviation-bounded choices.  FREE choices are explored
    // completely; the others cost one unit of their budget when a value other
    // than 0 is picked.
    enum Kind { FREE = 0, PREEMPT = 1, FAULT = 2, ORDER = 3, NKIND = 4 };

    // pick one of n alternatives (0..n-1); the explorer enumerates them all
    int choose(int n, Kind k = FREE);
    // while on, every choice is 0 and none is recorded: for one-time library
    // initialisation before the first run of a process
    void warmup(bool on);
    inline bool flip(Kind k = FREE) { return choose(2, k) == 1; }

    // Report a violation of the property by the current run.  Never returns.
    // sig identifies *what* fails (stable, used for known findings).
    void fail(const std::string &sig, const char *fmt, ...)
        __attribute__((noreturn, format(printf, 2, 3)));
    inline void fails(const std::string &sig, const std::string &msg)
    { fail(sig, "%s", msg.c_str()); }
    // Human readable trace line (kept for the replay only)
    void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
    // record an observed end-to-end outcome / an abstract state
    void outcome(const std::string &s);
    void state(const std::string &s);
    // count an evaluated instance (one input / one oracle comparison)
    void evaluated(uint64_t n = 1);
    // this run is vacuous: do not count as nontrivial
    void vacuous();
    // model trace step validated against implementation
    void validated(uint64_t n = 1);

    // label used if the process crashes from here on
    void crash_sig(const std::string &s);
    int param(const char *name, int def);
    bool replaying();

    // ---- controlled scheduler (only active between sched_begin/end) ----
    void sched_begin();      // caller becomes thread 0
    void sched_end();        // requires every other thread finished
    bool sched_active();
    // while on, threads run without preemption in a fixed order (for the
    // parts of a run whose interleavings are not under study)
    void calm(bool on);
    int self();
    void point(const char *what = 0);       // scheduling point
    // block until pred() holds (evaluated while no other thread runs)
    void block_until(const std::function<bool()> &pred, const char *what);
    // block until pred() holds or virtual deadline; true if pred
    bool block_until_timeout(const std::function<bool()> &pred,
                             int64_t deadline_ms, const char *what);
    int spawn(const std::function<void()> &f);     // harness thread
    void join(int tid);
    int live_threads();
    int64_t now_ms();
    void advance_ms(int64_t ms);
    void clock_reset();

    // happens-before edges for harness-made synchronisation
    void hb_release(void *obj);
    void hb_acquire(void *obj);

    // harness bookkeeping shared between threads: not race-checked
    struct NoRace { NoRace(); ~NoRace(); };

    struct Scenario {
        const char *name;
        void (*run)();
        int fork_every;        // 1: a fresh process per run, 0: same process
        Scenario *next;
        Scenario(const char *n, void (*r)(), int f);
    };
    // scratch directory of the run (created once per invocation)
    const char *scratch();
    extern void (*on_child_start)();   // hook run in every fresh child
}

#define MC_SCENARIO(name, fork_every)                              \
    static void mc_run_##name();                                   \
    static mc::Scenario mc_sc_##name(#name, mc_run_##name, fork_every); \
    static void mc_run_##name()

#endif
