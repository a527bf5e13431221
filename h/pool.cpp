// Worker thread pool: exactly-once handling and delivery.
// ONLY: thread_pool_observer pipe
#include "mc.hpp"
#include "thread_pool_observer.hpp"
#include <yazpp/socket-manager.h>
#include <vector>
#include <set>
#include <string>
#include <stdio.h>
#include <stdlib.h>

namespace mp = metaproxy_1;

static int handled[200], results[200], deleted[200];
static int conc, maxconc, total_results, main_tid, max_threads;
static std::string olog;
static int hold;            // handlers wait until `hold` of them run at once
static bool release_all;

struct Msg : public mp::IThreadPoolMsg {
    int id, owner, mode;
    Msg(int i, int o, int m) : id(i), owner(o), mode(m) {}
    ~Msg() { mc::NoRace nr; deleted[id]++; }
    mp::IThreadPoolMsg *handle()
    {
        {
            mc::NoRace nr;
            if (mc::self() == main_tid)
                mc::fail("handled-in-main", "message %d handled by the caller", id);
            if (++handled[id] > 1)
                mc::fail("handled-twice", "message %d handled twice", id);
            conc++;
            mc::note("handle %d by %d conc=%d", id, mc::self(), conc);
            if (conc > maxconc)
                maxconc = conc;
            if (hold && conc >= hold)
                release_all = true;
            if (conc > max_threads)
                mc::fail("too-many-threads", "%d messages handled at the same "
                         "time by a pool of at most %d threads", conc,
                         max_threads);
        }
        if (mode == 1)
            mc::block_until([]() { return release_all; }, "handler");
        else
            mc::point("handler");
        mc::NoRace nr;
        conc--;
        return this;
    }
    void result(const char *info)
    {
        mc::NoRace nr;
        if (mc::self() != main_tid)
            mc::fail("result-thread", "result of %d delivered by a worker", id);
        if (handled[id] != 1)
            mc::fail("result-early", "result of unhandled message %d", id);
        if (++results[id] > 1)
            mc::fail("result-twice", "result of message %d delivered twice", id);
        olog += std::to_string(id) + ",";
        total_results++;
        int tb = -1, tot = -1;
        if (sscanf(info, "tbusy/total %d/%d", &tb, &tot) != 2 || tb < 0
            || tot < 1 || tb > tot || tot > max_threads)
            mc::fail("thread-info", "thread info %s", info);
        delete this;
    }
    bool cleanup(void *info)
    {
        return (int) (long) info == owner;
    }
};

// one-time initialisations of the thread library are not part of any run
static void warm()
{
    static bool done;
    if (done)
        return;
    done = true;
    yazpp_1::SocketManager sm;
    mp::ThreadPoolSocketObserver pool(&sm, 1, 1, 0);
}

static void reset()
{
    for (int i = 0; i < 200; i++)
        handled[i] = results[i] = deleted[i] = 0;
    conc = maxconc = total_results = 0;
    release_all = false;
    hold = 0;
    olog.clear();
    main_tid = mc::self();
}

static void drain(yazpp_1::SocketManager &sm, int want)
{
    while (total_results < want)
        if (sm.processEvent() <= 0)
            break;
}

// n messages, optional cleanup of one owner's messages in between
MC_SCENARIO(pool_run, 0)
{
    warm();
    mc::sched_begin();
    reset();
    int n = mc::param("n", 3), mn = mc::param("min", 1), mx = mc::param("max", 2);
    int cl = mc::param("cleanup", 1);
    max_threads = mx;
    std::string st;
    {
        yazpp_1::SocketManager sm;
        mp::ThreadPoolSocketObserver pool(&sm, mn, mx, 0);
        int when = cl ? mc::choose(n + 1) : n + 1;     // cleanup after `when` puts
        int cleaned = 0;
        std::set<int> gone;
        for (int i = 0; i < n; i++)
        {
            if (i == when)
                pool.cleanup(0, (void *) 1);
            Msg *m = new Msg(i, i % 2, 0);
            pool.put(m);
            int tb = 0, tot = 0;
            pool.get_thread_info(tb, tot);
            if (tot > mx || tot < mn)
                mc::fail("thread-count", "%d threads, configured %d..%d", tot,
                         mn, mx);
        }
        if (when == n)
            pool.cleanup(0, (void *) 1);
        {
            mc::NoRace nr;
            // a message that went away without having been handled must be
            // one of the owner that was cleaned up
            for (int i = 0; i < n; i++)
                if (deleted[i] && !results[i])
                {
                    if (handled[i] || i % 2 != 1 || when > n)
                        mc::fail("message-lost", "message %d vanished", i);
                    cleaned++;
                    gone.insert(i);
                }
        }
        drain(sm, n - cleaned);
        for (int i = 0; i < n; i++)
        {
            bool g = gone.count(i);
            if (handled[i] != !g || results[i] != !g || deleted[i] != 1)
                mc::fail("message-lost", "message %d: handled %d, delivered %d, "
                         "freed %d times", i, handled[i], results[i], deleted[i]);
        }
        st = olog + "c" + std::to_string(cleaned);
    }
    mc::evaluated();
    mc::outcome(st + "m" + std::to_string(maxconc));
    mc::state(st);
    mc::sched_end();
}

// all workers busy: new threads appear up to the maximum, so max_threads
// messages run at the same time; later messages wait but get their turn
MC_SCENARIO(pool_grow, 0)
{
    warm();
    mc::sched_begin();
    reset();
    int mn = mc::param("min", 1), mx = mc::param("max", 3),
        n = mx + mc::param("extra", 1);
    max_threads = mx;
    hold = mx;
    {
        yazpp_1::SocketManager sm;
        mp::ThreadPoolSocketObserver pool(&sm, mn, mx, 0);
        for (int i = 0; i < n; i++)
        {
            mc::note("put %d conc=%d", i, conc);
            pool.put(new Msg(i, 0, 1));
            // let the workers pick it up, so that they are all busy
            mc::block_until([=]() { return conc >= (i + 1 < mx ? i + 1 : mx)
                || release_all || total_results > 0
                || i >= mx; }, "settle");
        }
        drain(sm, n);
        for (int i = 0; i < n; i++)
            if (handled[i] != 1 || results[i] != 1)
                mc::fail("message-lost", "message %d handled %d delivered %d", i,
                         handled[i], results[i]);
    }
    mc::evaluated();
    mc::outcome(olog);
    mc::state(olog);
    mc::sched_end();
}

// more messages than the queue takes: the caller waits, nothing is lost
MC_SCENARIO(pool_full, 0)
{
    warm();
    mc::sched_begin();
    reset();
    int n = mc::param("n", 66), mx = mc::param("max", 1);
    max_threads = mx;
    {
        yazpp_1::SocketManager sm;
        mp::ThreadPoolSocketObserver pool(&sm, 1, mx, 0);
        for (int i = 0; i < n; i++)
            pool.put(new Msg(i, 0, 0));
        drain(sm, n);
        for (int i = 0; i < n; i++)
            if (handled[i] != 1 || results[i] != 1)
                mc::fail("message-lost", "message %d handled %d delivered %d", i,
                         handled[i], results[i]);
    }
    mc::evaluated();
    mc::outcome(std::to_string(maxconc) + olog.substr(0, 30));
    mc::state(olog);
    mc::sched_end();
}

// destroying the pool always ends, whatever is queued or running
MC_SCENARIO(pool_stop, 0)
{
    warm();
    mc::sched_begin();
    reset();
    int n = mc::param("n", 2), mx = mc::param("max", 2);
    max_threads = mx;
    {
        yazpp_1::SocketManager sm;
        mp::ThreadPoolSocketObserver pool(&sm, mc::choose(2) + 1, mx, 0);
        int k = mc::choose(n + 1);
        for (int i = 0; i < k; i++)
            pool.put(new Msg(i, 0, 0));
    }
    std::string s;
    for (int i = 0; i < n; i++)
        s += char('0' + handled[i]);
    if (conc || mc::live_threads() != 1)
        mc::fail("thread-left", "a worker is still running");
    mc::evaluated();
    mc::outcome(s);
    mc::state(s);
    mc::sched_end();
}
