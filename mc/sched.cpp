// Controlled scheduler: exactly one registered thread runs at any time; every
// lock acquisition / blocking operation is a scheduling point whose decision
// is an explored choice.  Time is virtual.  pthread, time and sleep functions
// are interposed, so that the unmodified implementation runs under it.
#include "mc.hpp"
#include "mc_int.hpp"
#include <atomic>
#include <map>
#include <unordered_map>
#include <vector>
#include <set>
#include <deque>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>
#include <link.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/futex.h>

namespace mc {

// the scheduler's own records are kept outside of the heap, so that a harness
// can measure what the code under test keeps there
static std::atomic_flag arena_lock = ATOMIC_FLAG_INIT;
static void *arena_free[48];
static char *arena_p, *arena_end;
static void *arena_get(size_t n)
{
    int k = 4;
    while (((size_t) 1 << k) < n)
        k++;
    while (arena_lock.test_and_set(std::memory_order_acquire))
        ;
    void *r = arena_free[k];
    if (r)
        arena_free[k] = *(void **) r;
    else
    {
        size_t z = (size_t) 1 << k;
        if ((size_t) (arena_end - arena_p) < z)
        {
            size_t c = z > (1 << 20) ? z : 1 << 20;
            arena_p = (char *) mmap(0, c, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (arena_p == (char *) MAP_FAILED)
                abort();
            arena_end = arena_p + c;
        }
        r = arena_p;
        arena_p += z;
    }
    arena_lock.clear(std::memory_order_release);
    return r;
}
static void arena_put(void *p, size_t n)
{
    int k = 4;
    while (((size_t) 1 << k) < n)
        k++;
    while (arena_lock.test_and_set(std::memory_order_acquire))
        ;
    *(void **) p = arena_free[k];
    arena_free[k] = p;
    arena_lock.clear(std::memory_order_release);
}
template <class X> struct Arena {
    typedef X value_type;
    Arena() {}
    template <class Y> Arena(const Arena<Y> &) {}
    X *allocate(size_t n) { return (X *) arena_get(n * sizeof(X)); }
    void deallocate(X *p, size_t n) { arena_put(p, n * sizeof(X)); }
    template <class Y> bool operator==(const Arena<Y> &) const { return true; }
    template <class Y> bool operator!=(const Arena<Y> &) const { return false; }
};
template <class K, class V> using AMap = std::unordered_map<K, V, std::hash<K>,
    std::equal_to<K>, Arena<std::pair<const K, V> > >;

typedef std::vector<uint32_t, Arena<uint32_t> > VC;
static void vjoin(VC &a, const VC &b)
{
    if (a.size() < b.size())
        a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++)
        if (b[i] > a[i])
            a[i] = b[i];
}

enum TState { RUN, BMUTEX, BCOND, BPRED, DONE };

struct Thread {
    int id;
    TState st;
    std::atomic<int> go;
    void *mutex;                // mutex to (re)acquire
    void *cond;
    bool signaled, timedout, timed;
    int64_t deadline;
    const std::function<bool()> *pred;
    const char *what;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    bool detached;
    VC vc;
    Thread() : id(0), st(RUN), go(0), mutex(0), cond(0), signaled(false),
               timedout(false), timed(false), deadline(0), pred(0), what(0),
               fn(0), arg(0), ret(0), detached(false) {}
    static void *operator new(size_t n) { return arena_get(n); }
    static void operator delete(void *p) { arena_put(p, sizeof(Thread)); }
};

struct Mutex {
    int owner;
    int count;
    VC vc;
    bool silent;
    Mutex() : owner(-1), count(0), silent(false) {}
};

static bool active = false;
static std::vector<Thread *, Arena<Thread *> > T;
static AMap<void *, Mutex> M;
static AMap<void *, VC> HB;
static AMap<unsigned long, int> PT;    // pthread_t -> tid
static thread_local int me = -1;
static thread_local int norace = 0;
static thread_local int in_sched = 0;

static int64_t vnow = 1700000000000LL;
static int64_t vstart = 1700000000000LL;
static bool vclock = false;
static int timers_opt = 0;
static int64_t horizon_ms = 0;
static int cond_opt = 0;

// ------------------------------------------------------------ real functions
#define REAL(ret, name, args)                     \
    static ret (*real_##name) args = 0
REAL(int, pthread_mutex_lock, (pthread_mutex_t *));
REAL(int, pthread_mutex_trylock, (pthread_mutex_t *));
REAL(int, pthread_mutex_unlock, (pthread_mutex_t *));
REAL(int, pthread_mutex_destroy, (pthread_mutex_t *));
REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *));
REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *,
                                   const struct timespec *));
REAL(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *,
                                   clockid_t, const struct timespec *));
REAL(int, pthread_cond_signal, (pthread_cond_t *));
REAL(int, pthread_cond_broadcast, (pthread_cond_t *));
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *,
                           void *(*)(void *), void *));
REAL(int, pthread_join, (pthread_t, void **));
REAL(int, pthread_detach, (pthread_t));
REAL(time_t, time, (time_t *));
REAL(int, gettimeofday, (struct timeval *, void *));
REAL(int, clock_gettime, (clockid_t, struct timespec *));
REAL(unsigned, sleep, (unsigned));
REAL(int, usleep, (useconds_t));
REAL(int, nanosleep, (const struct timespec *, struct timespec *));

template <class F> static void resolve(F &f, const char *n)
{
    if (!f)
        f = (F) dlsym(RTLD_NEXT, n);
}

struct Range { unsigned long lo, hi; };
static std::vector<Range> *quiet_libs;

static int phdr_cb(struct dl_phdr_info *info, size_t, void *)
{
    const char *n = info->dlpi_name;
    if (!n || !*n)
        return 0;
    if (strstr(n, "libyaz") || strstr(n, "libxml2") || strstr(n, "libxslt")
        || strstr(n, "libexslt") || strstr(n, "libgnutls")
        || strstr(n, "libicu") || strstr(n, "libc.so"))
        for (int i = 0; i < info->dlpi_phnum; i++)
            if (info->dlpi_phdr[i].p_type == PT_LOAD)
            {
                Range r;
                r.lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
                r.hi = r.lo + info->dlpi_phdr[i].p_memsz;
                quiet_libs->push_back(r);
            }
    return 0;
}

static bool quiet_caller(void *pc)
{
    unsigned long a = (unsigned long) pc;
    for (size_t i = 0; i < quiet_libs->size(); i++)
        if (a >= (*quiet_libs)[i].lo && a < (*quiet_libs)[i].hi)
            return true;
    return false;
}

__attribute__((constructor(101))) static void early()
{
    resolve(real_pthread_mutex_lock, "pthread_mutex_lock");
    resolve(real_pthread_mutex_trylock, "pthread_mutex_trylock");
    resolve(real_pthread_mutex_unlock, "pthread_mutex_unlock");
    resolve(real_pthread_mutex_destroy, "pthread_mutex_destroy");
    resolve(real_pthread_cond_wait, "pthread_cond_wait");
    resolve(real_pthread_cond_timedwait, "pthread_cond_timedwait");
    resolve(real_pthread_cond_clockwait, "pthread_cond_clockwait");
    resolve(real_pthread_cond_signal, "pthread_cond_signal");
    resolve(real_pthread_cond_broadcast, "pthread_cond_broadcast");
    resolve(real_pthread_create, "pthread_create");
    resolve(real_pthread_join, "pthread_join");
    resolve(real_pthread_detach, "pthread_detach");
    resolve(real_time, "time");
    resolve(real_gettimeofday, "gettimeofday");
    resolve(real_clock_gettime, "clock_gettime");
    resolve(real_sleep, "sleep");
    resolve(real_usleep, "usleep");
    resolve(real_nanosleep, "nanosleep");
}

void sched_init()
{
    early();
    quiet_libs = new std::vector<Range>;
    dl_iterate_phdr(phdr_cb, 0);
}

// ------------------------------------------------------------------ baton
static void futex_wait(std::atomic<int> *a, int v)
{
    syscall(SYS_futex, (int *) a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
static void futex_wake(std::atomic<int> *a)
{
    syscall(SYS_futex, (int *) a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void await_go(Thread *t)
{
    while (t->go.load() == 0)
        futex_wait(&t->go, 0);
    t->go.store(0);
}
static void give(Thread *t)
{
    t->go.store(1);
    futex_wake(&t->go);
}

static bool is_enabled(Thread *t)
{
    switch (t->st)
    {
    case RUN:
        return true;
    case BMUTEX:
        return M[t->mutex].owner == -1;
    case BCOND:
        return (t->signaled || (t->timed && t->deadline <= vnow))
            && M[t->mutex].owner == -1;
    case BPRED:
        return (*t->pred)() || (t->timed && t->deadline <= vnow);
    default:
        return false;
    }
}

static std::string describe()
{
    std::string s;
    char b[200];
    static const char *nm[] = { "runnable", "wants mutex", "waits on condition",
                                "blocked", "done" };
    for (size_t i = 0; i < T.size(); i++)
    {
        Thread *t = T[i];
        if (t->st == DONE)
            continue;
        snprintf(b, sizeof b, "thread %d: %s%s%s; ", t->id, nm[t->st],
                 t->what ? " " : "", t->what ? t->what : "");
        s += b;
    }
    return s;
}

static bool calm_now;

// choose the next thread; the caller's state is already set
static void pick(Thread *self)
{
    in_sched++;
    std::vector<Thread *> en;
    for (;;)
    {
        if (timers_opt && !calm_now)
        {
            int64_t dl = -1;
            for (size_t i = 0; i < T.size(); i++)
                if ((T[i]->st == BCOND || T[i]->st == BPRED) && T[i]->timed
                    && !T[i]->signaled && T[i]->deadline > vnow
                    && (dl < 0 || T[i]->deadline < dl))
                    dl = T[i]->deadline;
            if (dl > 0 && choose(2, ORDER))
                vnow = dl;
        }
        en.clear();
        bool self_en = self->st != DONE && is_enabled(self);
        if (self_en)
            en.push_back(self);
        for (size_t i = 0; i < T.size(); i++)
            if (T[i] != self && is_enabled(T[i]))
                en.push_back(T[i]);
        if (en.size())
        {
            int c = calm_now ? 0
                : choose((int) en.size(), self_en ? PREEMPT : FREE);
            Thread *n = en[c];
            // leave blocked state
            if (n->st == BMUTEX || n->st == BCOND)
            {
                if (n->st == BCOND)
                    n->timedout = !n->signaled;
                Mutex &m = M[n->mutex];
                m.owner = n->id;
                m.count = 1;
                vjoin(n->vc, m.vc);
            }
            n->st = RUN;
            in_sched--;
            if (n != self)
            {
                bool done = self->st == DONE;
                if (done)
                {
                    // from here on this thread is no longer under control
                    std::vector<Thread *>().swap(en);
                    me = -1;
                    in_sched = 1000;
                }
                give(n);
                if (!done)
                    await_go(self);
            }
            return;
        }
        // nobody can run: let time pass
        int64_t dl = -1;
        for (size_t i = 0; i < T.size(); i++)
            if ((T[i]->st == BCOND || T[i]->st == BPRED) && T[i]->timed
                && (dl < 0 || T[i]->deadline < dl))
                dl = T[i]->deadline;
        if (dl > vnow && dl - vstart < horizon_ms)
        {
            vnow = dl;
            continue;
        }
        if (dl >= 0 && dl - vstart < horizon_ms)
        {
            // deadline reached but its mutex is owned: genuine deadlock
        }
        fails("deadlock", "no thread can proceed: " + describe());
    }
}

bool sched_active() { return active && me >= 0; }
int self() { return me; }

static Thread *new_thread()
{
    Thread *t = new Thread;
    t->id = T.size();
    T.push_back(t);
    t->vc.resize(T.size(), 0);
    t->vc[t->id] = 1;
    return t;
}

static void race_reset();

void sched_begin()
{
    race_reset();
    T.clear();
    M.clear();
    HB.clear();
    PT.clear();
    calm_now = false;
    timers_opt = param("timers", 0);
    cond_opt = param("anywake", 1);
    horizon_ms = (int64_t) param("horizon_s", 36000) * 1000;
    vclock = true;
    vstart = vnow;
    Thread *t = new_thread();
    me = 0;
    t->pt = pthread_self();
    active = true;
}

void calm(bool on) { calm_now = on; }

int live_threads()
{
    int n = 0;
    for (size_t i = 0; i < T.size(); i++)
        if (T[i]->st != DONE)
            n++;
    return n;
}

void sched_end()
{
    if (live_threads() > 1)
        fails("thread-leak", "threads still running at the end: " + describe());
    active = false;
    me = -1;
    for (size_t i = 0; i < T.size(); i++)
        delete T[i];
    T.clear();
}

void point(const char *what)
{
    if (!sched_active() || in_sched)
        return;
    Thread *t = T[me];
    t->what = what;
    pick(t);
}

bool block_until_timeout(const std::function<bool()> &pred, int64_t deadline,
                         const char *what)
{
    if (!sched_active())
        return pred();
    Thread *t = T[me];
    t->st = BPRED;
    t->pred = &pred;
    t->timed = deadline >= 0;
    t->deadline = deadline;
    t->what = what;
    pick(t);
    t->pred = 0;
    t->timed = false;
    in_sched++;
    bool r = pred();
    in_sched--;
    return r;
}

void block_until(const std::function<bool()> &pred, const char *what)
{
    block_until_timeout(pred, -1, what);
}

int64_t now_ms() { return vnow; }
void advance_ms(int64_t ms) { vnow += ms; vclock = true; }
void clock_reset() { vnow = 1700000000000LL; vclock = true; }

void hb_release(void *o)
{
    if (!sched_active())
        return;
    in_sched++;
    Thread *t = T[me];
    vjoin(HB[o], t->vc);
    t->vc[me]++;
    in_sched--;
}
void hb_acquire(void *o)
{
    if (!sched_active())
        return;
    in_sched++;
    vjoin(T[me]->vc, HB[o]);
    in_sched--;
}

// ------------------------------------------------------- thread entry / exit
static void *tramp(void *p)
{
    Thread *t = (Thread *) p;
    me = t->id;
    await_go(t);
    if (race_enabled)
    {
        // our stack may be recycled memory
        pthread_attr_t a;
        void *sa;
        size_t ss;
        in_sched++;
        if (!pthread_getattr_np(pthread_self(), &a))
        {
            pthread_attr_getstack(&a, &sa, &ss);
            race_alloc(sa, ss);
            pthread_attr_destroy(&a);
        }
        in_sched--;
    }
    void *r = t->fn(t->arg);
    t->ret = r;
    t->vc[t->id]++;
    t->st = DONE;
    int id = me;
    (void) id;
    Thread *tt = t;
    pick(tt);
    me = -1;
    return r;
}

static int create_thread(pthread_t *pt, const pthread_attr_t *attr,
                         void *(*fn)(void *), void *arg, int *tid)
{
    Thread *self = T[me];
    Thread *t = new_thread();
    t->fn = fn;
    t->arg = arg;
    vjoin(t->vc, self->vc);
    t->vc[t->id] = 1;
    self->vc.resize(T.size(), 0);
    self->vc[me]++;
    if (attr)
    {
        int ds;
        pthread_attr_getdetachstate(attr, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    int r = real_pthread_create(&t->pt, attr, tramp, t);
    if (r)
    {
        T.pop_back();
        delete t;
        return r;
    }
    *pt = t->pt;
    PT[(unsigned long) t->pt] = t->id;
    if (tid)
        *tid = t->id;
    point("create");
    return 0;
}

static void *fun_tramp(void *p)
{
    std::function<void()> *f = (std::function<void()> *) p;
    (*f)();
    delete f;
    return 0;
}

int spawn(const std::function<void()> &f)
{
    pthread_t pt;
    int tid = -1;
    int r = create_thread(&pt, 0, fun_tramp, new std::function<void()>(f), &tid);
    if (r)
        fail("harness:spawn", "pthread_create failed %d", r);
    return tid;
}

void join(int tid)
{
    Thread *t = T[tid];
    block_until([t]() { return t->st == DONE; }, "join");
    vjoin(T[me]->vc, t->vc);
    if (!t->detached)
    {
        t->detached = true;
        PT.erase((unsigned long) t->pt);
        real_pthread_join(t->pt, 0);
    }
}

// -------------------------------------------------------------- race detector
bool race_enabled = false;

// accesses to one 8-byte granule that are not superseded; byte-exact masks
struct Acc {
    int16_t tid;
    uint8_t mask;
    bool write;
    uint32_t clk;
    void *pc;
};
typedef std::vector<Acc> Shadow;
static std::unordered_map<unsigned long, Shadow> SH;

static void race_reset()
{
    SH.clear();
}

static std::string sym(void *pc)
{
    Dl_info di;
    char b[400];
    if (dladdr(pc, &di))
    {
        snprintf(b, sizeof b, "%s (%s+0x%lx)", di.dli_sname ? di.dli_sname : "?",
                 di.dli_fname ? di.dli_fname : "?",
                 (unsigned long) pc - (unsigned long) di.dli_fbase);
        return b;
    }
    return "?";
}

static void race_report(unsigned long a, bool w1, void *pc1, int t1,
                        bool w2, void *pc2, int t2)
{
    in_sched++;
    std::string s1 = sym(pc1), s2 = sym(pc2);
    std::string n1 = s1.substr(0, s1.find(' ')), n2 = s2.substr(0, s2.find(' '));
    if (n2 < n1)
        n1.swap(n2);
    fail("race:" + n1.substr(0, 110) + "|" + n2.substr(0, 110),
         "data race on %#lx: %s by thread %d at %s; earlier %s by thread %d "
         "at %s", a, w1 ? "write" : "read", t1, s1.c_str(),
         w2 ? "write" : "read", t2, s2.c_str());
}

NoRace::NoRace() { norace++; }
NoRace::~NoRace() { norace--; }

void race_access(const void *p, int size, bool write, void *pc)
{
    if (!active || me < 0 || in_sched || norace)
        return;
    if (T.size() < 2)
        return;
    in_sched++;
    Thread *t = T[me];
    unsigned long a = (unsigned long) p, e = a + size;
    while (a < e)
    {
        unsigned long g = a >> 3;
        unsigned long ge = (g + 1) << 3;
        unsigned long hi = e < ge ? e : ge;
        uint8_t mask = 0;
        for (unsigned long x = a; x < hi; x++)
            mask |= 1 << (x & 7);
        Shadow &s = SH[g];
        uint32_t myclk = t->vc[me];
        size_t keep = 0;
        bool merged = false;
        for (size_t i = 0; i < s.size(); i++)
        {
            Acc &x = s[i];
            if (x.tid != me && (x.mask & mask) && (write || x.write)
                && (x.tid >= (int) t->vc.size() || t->vc[x.tid] < x.clk))
                race_report(a, write, pc, me, x.write, x.pc, x.tid);
            if (write || (x.tid == me && !x.write))
                x.mask &= ~mask;    // superseded by this access
            if (x.tid == me && x.write == write && x.clk == myclk && !merged)
            {
                x.mask |= mask;
                merged = true;
            }
            if (x.mask)
                s[keep++] = x;
        }
        s.resize(keep);
        if (!merged)
        {
            Acc n = { (int16_t) me, mask, write, myclk, pc };
            s.push_back(n);
        }
        a = hi;
    }
    in_sched--;
}

void race_alloc(void *p, unsigned long size)
{
    unsigned long g = (unsigned long) p >> 3, e = ((unsigned long) p + size + 7) >> 3;
    if (e - g > SH.size() * 4)
    {
        std::vector<unsigned long> del;
        for (std::unordered_map<unsigned long, Shadow>::iterator i = SH.begin();
             i != SH.end(); i++)
            if (i->first >= g && i->first < e)
                del.push_back(i->first);
        for (size_t i = 0; i < del.size(); i++)
            SH.erase(del[i]);
        return;
    }
    for (; g < e; g++)
        SH.erase(g);
}

void race_malloc(void *p, unsigned long size)
{
    if (!active || in_sched || !p || me < 0 || SH.empty())
        return;
    in_sched++;
    race_alloc(p, size);
    in_sched--;
}

void race_free(void *p, unsigned long size)
{
    if (!active || in_sched || !p || me < 0)
        return;
    if (T.size() > 1)
        race_access(p, size, true, __builtin_return_address(0));
    in_sched++;
    race_alloc(p, size);
    in_sched--;
}

} // namespace mc

// =========================================================== interposers
using namespace mc;

static inline bool ctl() { return active && me >= 0 && !in_sched; }

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!ctl())
    {
        resolve(real_pthread_mutex_lock, "pthread_mutex_lock");
        if (active && me >= 0)
            return 0;           // inside the scheduler: single threaded
        return real_pthread_mutex_lock(m);
    }
    Thread *t = T[me];
    in_sched++;
    Mutex &mm = M[m];
    in_sched--;
    if (mm.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
    {
        mm.count++;
        return 0;
    }
    // locks the libraries (and the harness's bookkeeping) take for themselves:
    // no scheduling point, and no ordering that could hide a race
    if ((norace || quiet_caller(__builtin_return_address(0))) && mm.owner == -1)
    {
        mm.owner = me;
        mm.count = 1;
        mm.silent = true;
        return 0;
    }
    t->st = BMUTEX;
    t->mutex = m;
    t->what = "mutex";
    pick(t);
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!ctl())
    {
        resolve(real_pthread_mutex_trylock, "pthread_mutex_trylock");
        if (active && me >= 0)
            return 0;
        return real_pthread_mutex_trylock(m);
    }
    point("trylock");
    Thread *t = T[me];
    in_sched++;
    Mutex &mm = M[m];
    in_sched--;
    if (mm.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
    {
        mm.count++;
        return 0;
    }
    if (mm.owner != -1)
        return EBUSY;
    mm.owner = me;
    mm.count = 1;
    vjoin(t->vc, mm.vc);
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!ctl())
    {
        resolve(real_pthread_mutex_unlock, "pthread_mutex_unlock");
        if (active && me >= 0)
            return 0;
        return real_pthread_mutex_unlock(m);
    }
    in_sched++;
    Mutex &mm = M[m];
    in_sched--;
    if (mm.owner != me)
    {
        if (mm.owner == -1)     // locked before sched_begin
            return 0;
        fail("unlock-not-owner", "thread %d unlocks a mutex owned by %d",
             me, mm.owner);
    }
    if (--mm.count > 0)
        return 0;
    Thread *t = T[me];
    mm.owner = -1;
    if (mm.silent)
    {
        mm.silent = false;
        return 0;
    }
    mm.vc = t->vc;
    t->vc[me]++;
    return 0;
}

int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (ctl())
    {
        in_sched++;
        AMap<void *, Mutex>::iterator it = M.find(m);
        if (it != M.end())
        {
            if (it->second.owner != -1)
                fail("mutex-destroyed-in-use", "mutex destroyed while locked");
            for (size_t i = 0; i < T.size(); i++)
                if (T[i]->st != DONE && T[i]->st != RUN
                    && T[i]->st != BPRED && T[i]->mutex == m)
                    fail("mutex-destroyed-in-use",
                         "mutex destroyed while thread %d waits for it",
                         T[i]->id);
            M.erase(it);
        }
        in_sched--;
        return 0;
    }
    resolve(real_pthread_mutex_destroy, "pthread_mutex_destroy");
    return real_pthread_mutex_destroy(m);
}

static int cond_block(pthread_cond_t *c, pthread_mutex_t *m, bool timed,
                      int64_t deadline)
{
    Thread *t = T[me];
    in_sched++;
    Mutex &mm = M[m];
    in_sched--;
    if (mm.owner == me)
    {
        mm.owner = -1;
        mm.count = 0;
        mm.vc = t->vc;
        t->vc[me]++;
    }
    t->st = BCOND;
    t->cond = c;
    t->mutex = m;
    t->signaled = false;
    t->timed = timed;
    t->deadline = deadline;
    t->what = "condition";
    pick(t);
    bool to = t->timedout;
    t->cond = 0;
    t->timed = false;
    t->timedout = false;
    return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!ctl())
    {
        resolve(real_pthread_cond_wait, "pthread_cond_wait");
        return real_pthread_cond_wait(c, m);
    }
    return cond_block(c, m, false, 0);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                           const struct timespec *ts)
{
    if (!ctl())
    {
        resolve(real_pthread_cond_timedwait, "pthread_cond_timedwait");
        return real_pthread_cond_timedwait(c, m, ts);
    }
    return cond_block(c, m, true,
                      ts->tv_sec * 1000LL + (ts->tv_nsec + 999999) / 1000000);
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const struct timespec *ts)
{
    if (!ctl())
    {
        resolve(real_pthread_cond_clockwait, "pthread_cond_clockwait");
        return real_pthread_cond_clockwait(c, m, k, ts);
    }
    return pthread_cond_timedwait(c, m, ts);
}

int pthread_cond_signal(pthread_cond_t *c)
{
    if (!ctl())
    {
        resolve(real_pthread_cond_signal, "pthread_cond_signal");
        if (active && me >= 0)
            return 0;
        return real_pthread_cond_signal(c);
    }
    in_sched++;
    std::vector<Thread *> w;
    for (size_t i = 0; i < T.size(); i++)
        if (T[i]->st == BCOND && T[i]->cond == c && !T[i]->signaled)
            w.push_back(T[i]);
    if (w.size())
        w[cond_opt && !calm_now ? choose(w.size(), ORDER) : 0]->signaled = true;
    in_sched--;
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!ctl())
    {
        resolve(real_pthread_cond_broadcast, "pthread_cond_broadcast");
        if (active && me >= 0)
            return 0;
        return real_pthread_cond_broadcast(c);
    }
    for (size_t i = 0; i < T.size(); i++)
        if (T[i]->st == BCOND && T[i]->cond == c)
            T[i]->signaled = true;
    return 0;
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr,
                   void *(*fn)(void *), void *arg)
{
    if (!ctl())
    {
        resolve(real_pthread_create, "pthread_create");
        return real_pthread_create(pt, attr, fn, arg);
    }
    return create_thread(pt, attr, fn, arg, 0);
}

int pthread_join(pthread_t pt, void **ret)
{
    if (ctl())
    {
        AMap<unsigned long, int>::iterator it =
            PT.find((unsigned long) pt);
        if (it != PT.end())
        {
            Thread *t = T[it->second];
            mc::join(t->id);
            if (ret)
                *ret = t->ret;
            return 0;
        }
    }
    resolve(real_pthread_join, "pthread_join");
    return real_pthread_join(pt, ret);
}

int pthread_detach(pthread_t pt)
{
    if (ctl())
    {
        AMap<unsigned long, int>::iterator it =
            PT.find((unsigned long) pt);
        if (it != PT.end())
            T[it->second]->detached = true;
    }
    resolve(real_pthread_detach, "pthread_detach");
    return real_pthread_detach(pt);
}

// ------------------------------------------------------------------- clock
time_t time(time_t *p)
{
    time_t r;
    if (vclock)
        r = vnow / 1000;
    else
    {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    }
    if (p)
        *p = r;
    return r;
}

int gettimeofday(struct timeval *tv, void *tz) throw()
{
    if (vclock)
    {
        tv->tv_sec = vnow / 1000;
        tv->tv_usec = (vnow % 1000) * 1000;
        return 0;
    }
    return syscall(SYS_gettimeofday, tv, tz);
}

int clock_gettime(clockid_t k, struct timespec *ts) throw()
{
    if (vclock && (k == CLOCK_REALTIME || k == CLOCK_MONOTONIC))
    {
        ts->tv_sec = vnow / 1000;
        ts->tv_nsec = (vnow % 1000) * 1000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, k, ts);
}

int nanosleep(const struct timespec *req, struct timespec *rem)
{
    if (!ctl())
        return syscall(SYS_nanosleep, req, rem);
    int64_t ms = req->tv_sec * 1000LL + (req->tv_nsec + 999999) / 1000000;
    static const std::function<bool()> never = []() { return false; };
    block_until_timeout(never, vnow + ms, "sleep");
    return 0;
}

unsigned sleep(unsigned s)
{
    struct timespec ts;
    ts.tv_sec = s;
    ts.tv_nsec = 0;
    nanosleep(&ts, 0);
    return 0;
}

int usleep(useconds_t us)
{
    struct timespec ts;
    ts.tv_sec = us / 1000000;
    ts.tv_nsec = (us % 1000000) * 1000L;
    return nanosleep(&ts, 0);
}

} // extern "C"
