// Stateless bounded-exhaustive explorer.  Every execution is described by the
// list of values returned by mc::choose(); the explorer enumerates all lists
// (within the deviation budgets) exactly once, over several processes.
#include "mc.hpp"
#include "mc_int.hpp"
#include <atomic>
#include <map>
#include <set>
#include <vector>
#include <algorithm>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <time.h>
#include <ftw.h>

extern "C" __attribute__((weak)) const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=1:handle_abort=0:"
        "allocator_may_return_null=1:detect_stack_use_after_return=0:"
        "quarantine_size_mb=32:malloc_context_size=12:"
        "handle_segv=1:handle_sigfpe=1:max_allocation_size_mb=2000";
}

namespace mc {

static const int MAXTRACE = 1 << 16;
static const size_t STACKSZ = 256u << 20;
static const int QSLOTS = 4096, QLEN = 8192;
static const int MAXVIOL = 64;
static const int HTAB = 1 << 22;

struct Viol {
    char sig[256];
    char msg[16384];
    int known, confirmed, attempts;
    long count;
    int len;
    uint8_t ch[MAXTRACE];
};

struct Global {
    std::atomic<int> stop, timeout;
    std::atomic<long> runs, choices, evals, vac, valid, kfound, outc, stc;
    std::atomic<int> maxdepth;
    std::atomic<int> lock;
    int active;
    int qn;
    int qlen[QSLOTS];
    uint8_t q[QSLOTS][QLEN];
    int nviol;
    Viol viol[MAXVIOL];
    std::atomic<uint64_t> oh[HTAB], sh[HTAB];
    std::atomic<int> nsamples;
    char sample[8][1024];
    std::atomic<long> pruned[NKIND];
};

struct Worker {
    // current run
    int in_run;
    int failed;           // mc::fail called
    int ntrace;
    int isvac;
    int plen;             // length of replayed prefix
    char sig[256];
    char msg[16384];
    char crash_sig[256];
    uint8_t n[MAXTRACE], val[MAXTRACE], kind[MAXTRACE];
    int64_t run_start;
    char lastout[1024];
    // local stack of prefixes
    size_t base, top;
    uint8_t st[STACKSZ];
};

static Global *G;
static Worker *W;               // the current worker
static Scenario *scenarios;
static Scenario *cur;
static std::map<std::string, int> params;
static int budget[NKIND] = { 1 << 30, 2, 1, 1 };
static std::vector<std::string> known;
static int64_t deadline_ms;
static int nworkers = 8;
static bool g_replay = false, g_verbose = false;
static std::vector<uint8_t> prefix;
static std::string scratch_dir;
static int hang_cpu = 40;
void (*on_child_start)() = 0;

Scenario::Scenario(const char *n, void (*r)(), int f)
    : name(n), run(r), fork_every(f), next(scenarios)
{
    scenarios = this;
}

static int64_t raw_ms()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;
}

static void glock()
{
    int e = 0;
    while (!G->lock.compare_exchange_weak(e, 1))
    {
        e = 0;
        syscall(SYS_sched_yield);
    }
}
static void gunlock() { G->lock.store(0); }

int param(const char *name, int def)
{
    std::map<std::string, int>::iterator it = params.find(name);
    return it == params.end() ? def : it->second;
}
bool replaying() { return g_replay; }
const char *scratch() { return scratch_dir.c_str(); }

static bool warming;
void warmup(bool on) { warming = on; }

int choose(int n, Kind k)
{
    if (n <= 1 || warming)
        return 0;
    if (n > 255)
        fail("harness:too-many-alternatives", "choose(%d)", n);
    int i = W->ntrace;
    if (i >= MAXTRACE - 1)
        fail("runaway", "more than %d choices in one execution", MAXTRACE);
    int v = 0;
    if (i < (int) prefix.size())
    {
        v = prefix[i];
        if (v >= n)
            fail("harness:nondeterminism",
                 "replay diverged at choice %d: value %d of %d", i, v, n);
    }
    W->n[i] = n;
    W->val[i] = v;
    W->kind[i] = k;
    W->ntrace = i + 1;
    return v;
}

void crash_sig(const std::string &s)
{
    snprintf(W->crash_sig, sizeof W->crash_sig, "%s", s.c_str());
}

void fail(const std::string &sig, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    snprintf(W->sig, sizeof W->sig, "%s", sig.c_str());
    vsnprintf(W->msg, sizeof W->msg, fmt, ap);
    va_end(ap);
    W->failed = 1;
    if (g_replay)
    {
        fprintf(stderr, "FAIL sig=%s\n%s\n", W->sig, W->msg);
        fflush(stderr);
        fflush(stdout);
    }
    syscall(SYS_exit_group, 3);
    _exit(3);
}

void note(const char *fmt, ...)
{
    if (!g_replay || warming)
        return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "  [%d] ", sched_active() ? self() : 0);
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
}

static uint64_t fnv(const std::string &s)
{
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < s.size(); i++)
        h = (h ^ (uint8_t) s[i]) * 1099511628211ULL;
    return h ? h : 1;
}

static bool hadd(std::atomic<uint64_t> *t, std::atomic<long> &cnt, uint64_t h)
{
    uint64_t i = h % HTAB;
    for (int k = 0; k < 4096; k++, i = (i + 1) % HTAB)
    {
        uint64_t v = t[i].load(std::memory_order_relaxed);
        if (v == h)
            return false;
        if (v == 0)
        {
            uint64_t e = 0;
            if (t[i].compare_exchange_strong(e, h))
            {
                cnt++;
                return true;
            }
            if (e == h)
                return false;
        }
    }
    return false;
}

void outcome(const std::string &s)
{
    if (warming)
        return;
    if (g_replay)
        fprintf(stderr, "OUTCOME %s\n", s.c_str());
    snprintf(W->lastout, sizeof W->lastout, "%s", s.c_str());
    if (hadd(G->oh, G->outc, fnv(s)))
    {
        int i = G->nsamples.fetch_add(1);
        if (i < 8)
            snprintf(G->sample[i], sizeof G->sample[i], "%s", s.c_str());
    }
}
void state(const std::string &s) { if (!warming) hadd(G->sh, G->stc, fnv(s)); }
void evaluated(uint64_t n) { if (!warming) G->evals += n; }
void vacuous() { W->isvac = 1; }
void validated(uint64_t n) { G->valid += n; }

// ---------------------------------------------------------------- local stack
static bool lpush(const uint8_t *p, int len)
{
    if (W->top + len + 8 > STACKSZ)
    {
        if (W->base > 0)
        {
            memmove(W->st, W->st + W->base, W->top - W->base);
            W->top -= W->base;
            W->base = 0;
            if (W->top + len + 8 <= STACKSZ)
                return lpush(p, len);
        }
        G->timeout = 1;
        G->stop = 1;
        return false;
    }
    uint8_t *d = W->st + W->top;
    memcpy(d, &len, 4);
    memcpy(d + 4, p, len);
    memcpy(d + 4 + len, &len, 4);
    W->top += len + 8;
    return true;
}
static bool lpop(std::vector<uint8_t> &o)
{
    if (W->top == W->base)
        return false;
    int len;
    memcpy(&len, W->st + W->top - 4, 4);
    uint8_t *d = W->st + W->top - 4 - len;
    o.assign(d, d + len);
    W->top -= len + 8;
    if (W->top == W->base)
        W->top = W->base = 0;
    return true;
}

static void donate()
{
    if (G->qn >= nworkers * 2)
        return;
    if (W->top == W->base)
        return;
    int len;
    memcpy(&len, W->st + W->base, 4);
    if (W->top - W->base <= (size_t) len + 8)
        return;                 // keep the last one
    if (len > QLEN)
        return;
    glock();
    if (G->qn < QSLOTS)
    {
        G->qlen[G->qn] = len;
        memcpy(G->q[G->qn], W->st + W->base + 4, len);
        G->qn++;
        W->base += len + 8;
    }
    gunlock();
}

// push the unexplored alternatives of the run just made
static void expand()
{
    int cost[NKIND] = { 0 };
    std::vector<uint8_t> p;
    p.reserve(W->ntrace + 1);
    std::vector<int> costs;
    int nt = W->ntrace;
    // cheap pass for the deepest alternatives last (LIFO => DFS)
    for (int i = 0; i < nt; i++)
    {
        if (i >= W->plen)
        {
            for (int v = 1; v < W->n[i]; v++)
            {
                int k = W->kind[i];
                if (k != FREE && cost[k] + 1 > budget[k])
                {
                    G->pruned[k]++;
                    break;
                }
                p.push_back(v);
                lpush(&p[0], p.size());
                p.pop_back();
            }
        }
        if (W->val[i] && W->kind[i] != FREE)
            cost[W->kind[i]]++;
        p.push_back(W->val[i]);
    }
}

static bool is_known(const char *sig)
{
    for (size_t i = 0; i < known.size(); i++)
    {
        const std::string &k = known[i];
        if (k == sig)
            return true;
    }
    return false;
}

// returns the index of the violation if it still has to be confirmed, or -1
static int record(const char *sig, const char *msg)
{
    bool kn = is_known(sig);
    int todo = -1;
    glock();
    int i;
    for (i = 0; i < G->nviol; i++)
        if (!strcmp(G->viol[i].sig, sig))
            break;
    if (i < G->nviol)
        G->viol[i].count++;
    else if (i < MAXVIOL)
    {
        Viol &v = G->viol[i];
        snprintf(v.sig, sizeof v.sig, "%s", sig);
        snprintf(v.msg, sizeof v.msg, "%s", msg);
        v.known = kn;
        v.count = 1;
        v.confirmed = v.attempts = 0;
        v.len = W->ntrace;
        memcpy(v.ch, W->val, W->ntrace);
        G->nviol++;
    }
    if (!kn && i < MAXVIOL && !G->viol[i].confirmed
        && G->viol[i].attempts < 20)
    {
        G->viol[i].attempts++;
        todo = i;
    }
    gunlock();
    return todo;
}

static void on_prof(int)
{
    // CPU budget of one run exhausted: a hang
    snprintf(W->sig, sizeof W->sig, "hang");
    snprintf(W->msg, sizeof W->msg,
             "execution used more than %d s of CPU without finishing",
             hang_cpu);
    W->failed = 1;
    syscall(SYS_exit_group, 3);
}

static void one_run()
{
    W->ntrace = 0;
    W->failed = 0;
    W->isvac = 0;
    W->sig[0] = W->msg[0] = W->crash_sig[0] = W->lastout[0] = 0;
    W->plen = prefix.size();
    W->run_start = raw_ms();
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = hang_cpu;
    setitimer(ITIMER_PROF, &tv, 0);
    W->in_run = 1;
    static bool warmed;
    if (cur->fork_every == 0 && !warmed)
    {   // one-time library initialisation must not differ between the first
        // and the later runs of a process: one run with all choices 0 first
        warmed = true;
        std::vector<uint8_t> keep;
        keep.swap(prefix);
        W->plen = 0;
        warmup(true);
        cur->run();
        warmup(false);
        prefix.swap(keep);
        W->plen = prefix.size();
        W->ntrace = 0;
        W->isvac = 0;
        W->lastout[0] = 0;
    }
    cur->run();
    W->in_run = 0;
    if (W->ntrace < W->plen)
        fail("harness:nondeterminism", "replay ended early (%d of %d choices)",
             W->ntrace, W->plen);
}

static void account()
{
    G->runs++;
    G->choices += W->ntrace;
    if (W->isvac)
        G->vac++;
    int m = G->maxdepth.load();
    while (W->ntrace > m && !G->maxdepth.compare_exchange_weak(m, W->ntrace))
        ;
}

static void quiet()
{
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 0);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
}

// returns: 0 = no more work, 1 = refork
static void child_loop()
{
    int done = 0;
    signal(SIGPROF, on_prof);
    if (on_child_start)
        on_child_start();
    bool idle = false;
    while (!G->stop)
    {
        if (raw_ms() > deadline_ms)
        {
            G->timeout = 1;
            G->stop = 1;
            break;
        }
        if (!lpop(prefix))
        {
            glock();
            if (!idle)
            {
                G->active--;
                idle = true;
            }
            if (G->qn > 0)
            {
                // take the shortest = oldest
                int len = G->qlen[0];
                prefix.assign(G->q[0], G->q[0] + len);
                G->qn--;
                for (int i = 0; i < G->qn; i++)
                {
                    G->qlen[i] = G->qlen[i + 1];
                    memcpy(G->q[i], G->q[i + 1], G->qlen[i]);
                }
                G->active++;
                idle = false;
                gunlock();
            }
            else
            {
                bool fin = G->active == 0;
                gunlock();
                if (fin)
                    _exit(0);
                usleep(500);
                continue;
            }
        }
        one_run();
        account();
        expand();
        donate();
        done++;
        if (cur->fork_every && done >= cur->fork_every)
        {
            if (idle)
            {
                // cannot happen
            }
            _exit(9);
        }
    }
    _exit(0);
}

static int replay_once(const std::vector<uint8_t> &ch, std::string &sig,
                       std::string &msg, bool show, const char *logfile);

static void worker_main()
{
    quiet();
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    while (!G->stop)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            child_loop();
        }
        if (pid < 0)
        {
            usleep(10000);
            continue;
        }
        int st;
        if (cur->fork_every == 0 || 1)
        {
            // wait with a generous wall clock watchdog
            while (1)
            {
                pid_t r = waitpid(pid, &st, WNOHANG);
                if (r == pid)
                    break;
                static int spin = 0;
                if (spin < 2000)
                    spin++;
                // short waits: the child normally ends within a ms
                r = 0;
                {
                    sigset_t ss;
                    sigemptyset(&ss);
                    sigaddset(&ss, SIGCHLD);
                    struct timespec to;
                    to.tv_sec = 0;
                    to.tv_nsec = 200000000;
                    sigtimedwait(&ss, 0, &to);
                }
                if (W->in_run && raw_ms() - W->run_start > 400000)
                {
                    kill(pid, SIGKILL);
                    waitpid(pid, &st, 0);
                    snprintf(W->sig, sizeof W->sig, "hang");
                    snprintf(W->msg, sizeof W->msg, "execution blocked");
                    W->failed = 1;
                    break;
                }
            }
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 9)
            continue;
        // violation or crash in a run
        if (!W->failed)
        {
            if (W->crash_sig[0])
                snprintf(W->sig, sizeof W->sig, "%s", W->crash_sig);
            else if (WIFSIGNALED(st))
                snprintf(W->sig, sizeof W->sig, "crash");
            else
                snprintf(W->sig, sizeof W->sig, "exit-%d", WEXITSTATUS(st));
            snprintf(W->msg, sizeof W->msg,
                     "the process ended abnormally (%s %d) during the run",
                     WIFSIGNALED(st) ? "signal" : "exit code",
                     WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
        account();
        int todo = record(W->sig, W->msg);
        W->in_run = 0;
        std::vector<uint8_t> ch(W->val, W->val + W->ntrace);
        expand();
        donate();
        if (todo >= 0)
        {
            std::string sg, ms;
            for (int k = 0; k < 2; k++)
                if (replay_once(ch, sg, ms, false, 0))
                {
                    glock();
                    Viol &v = G->viol[todo];
                    v.confirmed = 1;
                    v.len = ch.size();
                    if (ch.size())
                        memcpy(v.ch, &ch[0], ch.size());
                    if (!param("keep_going", 0))
                        G->stop = 1;
                    gunlock();
                    break;
                }
        }
    }
    _exit(0);
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}

static int rmcb(const char *p, const struct stat *, int, struct FTW *)
{
    return remove(p);
}

static void cleanup_scratch()
{
    if (scratch_dir.size() > 10 && scratch_dir.compare(0, 5, "/tmp/") == 0)
        nftw(scratch_dir.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS);
}

// run one execution in a fork, return status string
static int replay_once(const std::vector<uint8_t> &ch, std::string &sig,
                       std::string &msg, bool show, const char *logfile)
{
    prefix = ch;
    W->failed = 0;
    W->sig[0] = 0;
    W->crash_sig[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        if (!show)
            quiet();
        if (logfile)
        {
            int fd = open(logfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0)
            {
                dup2(fd, 2);
                dup2(fd, 1);
            }
        }
        g_replay = show || logfile;
        signal(SIGPROF, on_prof);
        if (on_child_start)
            on_child_start();
        one_run();
        _exit(0);
    }
    int st;
    int64_t t0 = raw_ms();
    while (1)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        usleep(1000);
        if (raw_ms() - t0 > 300000)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            sig = "hang";
            msg = "blocked";
            return 1;
        }
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return 0;
    if (W->failed)
    {
        sig = W->sig;
        msg = W->msg;
    }
    else
    {
        sig = W->crash_sig[0] ? W->crash_sig : WIFSIGNALED(st) ? "crash" : "exit";
        msg = "the process ended abnormally during the run";
    }
    return 1;
}

static int mc_main(int argc, char **argv)
{
    std::string json, replay_file, viol_dir = ".";
    const char *scen = 0;
    double secs = 60;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--list")
        {
            for (Scenario *s = scenarios; s; s = s->next)
                printf("%s\n", s->name);
            return 0;
        }
        else if (a == "--time" && i + 1 < argc)
            secs = atof(argv[++i]);
        else if (a == "--jobs" && i + 1 < argc)
            nworkers = atoi(argv[++i]);
        else if (a == "--json" && i + 1 < argc)
            json = argv[++i];
        else if (a == "--replay" && i + 1 < argc)
            replay_file = argv[++i];
        else if (a == "--violdir" && i + 1 < argc)
            viol_dir = argv[++i];
        else if (a == "--known" && i + 1 < argc)
            known.push_back(argv[++i]);
        else if (a == "-v")
            g_verbose = true;
        else if (a.find('=') != std::string::npos)
        {
            size_t e = a.find('=');
            std::string k = a.substr(0, e);
            int v = atoi(a.c_str() + e + 1);
            if (k == "preempt")
                budget[PREEMPT] = v;
            else if (k == "fault")
                budget[FAULT] = v;
            else if (k == "order")
                budget[ORDER] = v;
            else if (k == "hang")
                hang_cpu = v;
            params[k] = v;
        }
        else
            scen = argv[i];
    }
    char tmpl[] = "/tmp/mcscratch.XXXXXX";
    if (!mkdtemp(tmpl))
    {
        perror("mkdtemp");
        return 2;
    }
    scratch_dir = tmpl;
    chmod(tmpl, 0755);

    // core dumps off
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);

    std::vector<uint8_t> rch;
    static std::string scen_buf;
    if (replay_file.size())
    {
        FILE *f = fopen(replay_file.c_str(), "r");
        if (!f)
        {
            perror(replay_file.c_str());
            return 2;
        }
        char line[1 << 18];
        while (fgets(line, sizeof line, f))
        {
            char *e = line + strlen(line);
            while (e > line && (e[-1] == '\n'))
                *--e = 0;
            if (!strncmp(line, "scenario ", 9))
            {
                scen_buf = line + 9;
                scen = scen_buf.c_str();
            }
            else if (!strncmp(line, "param ", 6))
            {
                char *eq = strchr(line + 6, '=');
                if (eq)
                {
                    *eq = 0;
                    params[line + 6] = atoi(eq + 1);
                }
            }
            else if (!strncmp(line, "choices", 7))
            {
                char *p = line + 7;
                while (*p)
                {
                    while (*p == ' ')
                        p++;
                    if (!*p)
                        break;
                    rch.push_back(strtol(p, &p, 10));
                }
            }
        }
        fclose(f);
    }
    for (cur = scenarios; cur; cur = cur->next)
        if (scen && !strcmp(cur->name, scen))
            break;
    if (!cur)
    {
        fprintf(stderr, "unknown scenario %s\n", scen ? scen : "(none)");
        return 2;
    }
    void *m = mmap(0, sizeof(Global), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G = (Global *) m;
    std::vector<Worker *> ws;
    for (int i = 0; i < nworkers; i++)
    {
        void *w = mmap(0, sizeof(Worker), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (w == MAP_FAILED)
        {
            perror("mmap");
            return 2;
        }
        ws.push_back((Worker *) w);
    }
    W = ws[0];
    sched_init();
    if (replay_file.size())
    {
        std::string sig, msg;
        int r = replay_once(rch, sig, msg, true, 0);
        cleanup_scratch();
        if (r)
        {
            printf("REPRODUCED sig=%s: %s\n", sig.c_str(), msg.c_str());
            return 1;
        }
        printf("NOT REPRODUCED\n");
        return 0;
    }
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, SIGCHLD);
    sigprocmask(SIG_BLOCK, &ss, 0);
    int64_t t0 = raw_ms();
    deadline_ms = t0 + (int64_t) (secs * 1000);
    // root task
    G->active = nworkers;
    std::vector<pid_t> pids;
    for (int i = 0; i < nworkers; i++)
    {
        W = ws[i];
        W->base = W->top = 0;
        if (i == 0)
            lpush((const uint8_t *) "", 0);
        pid_t p = fork();
        if (p == 0)
            worker_main();
        pids.push_back(p);
    }
    for (size_t i = 0; i < pids.size(); i++)
    {
        int st;
        waitpid(pids[i], &st, 0);
    }
    W = ws[0];
    bool exhaustive = !G->timeout && !G->stop;
    int nviol = 0, nunrep = 0;
    std::string vj, kj;
    for (int i = 0; i < G->nviol; i++)
    {
        Viol &v = G->viol[i];
        if (v.known)
        {
            if (kj.size())
                kj += ",";
            kj += "{\"sig\":" + jstr(v.sig) + ",\"msg\":" + jstr(v.msg)
                + ",\"count\":" + std::to_string(v.count) + "}";
            continue;
        }
        // confirm twice in fresh processes
        std::vector<uint8_t> ch(v.ch, v.ch + v.len);
        std::string file = viol_dir + "/" + cur->name + "-" +
            std::to_string(fnv(v.sig) % 1000000) + ".replay";
        FILE *f = fopen(file.c_str(), "w");
        if (f)
        {
            fprintf(f, "binary %s\nscenario %s\n", argv[0], cur->name);
            for (std::map<std::string, int>::iterator it = params.begin();
                 it != params.end(); it++)
                fprintf(f, "param %s=%d\n", it->first.c_str(), it->second);
            fprintf(f, "sig %s\n", v.sig);
            std::string mm = v.msg;
            for (size_t k = 0; k < mm.size(); k++)
                if (mm[k] == '\n')
                    mm[k] = '|';
            fprintf(f, "message %s\n", mm.c_str());
            fprintf(f, "choices");
            for (int k = 0; k < v.len; k++)
                fprintf(f, " %d", v.ch[k]);
            fprintf(f, "\n");
            fclose(f);
        }
        int ok = 0;
        std::string sig, msg;
        for (int k = 0; k < 2; k++)
        {
            std::string lf = file + ".log";
            ok += replay_once(ch, sig, msg, false, k == 0 ? lf.c_str() : 0);
        }
        if (ok)
        {
            nviol++;
            if (vj.size())
                vj += ",";
            vj += "{\"sig\":" + jstr(v.sig) + ",\"msg\":" + jstr(v.msg)
                + ",\"count\":" + std::to_string(v.count)
                + ",\"confirmed\":" + std::to_string(ok)
                + ",\"replay\":" + jstr(file) + "}";
        }
        else
        {
            nunrep++;
            fprintf(stderr, "UNREPRODUCED %s: sig=%s %s\n", cur->name, v.sig,
                    v.msg);
        }
    }
    double wall = (raw_ms() - t0) / 1000.0;
    std::string o = "{";
    o += "\"scenario\":" + jstr(cur->name);
    o += ",\"runs\":" + std::to_string(G->runs.load());
    o += ",\"choices\":" + std::to_string(G->choices.load());
    o += ",\"evaluations\":" + std::to_string(G->evals.load());
    o += ",\"vacuous\":" + std::to_string(G->vac.load());
    o += ",\"validated\":" + std::to_string(G->valid.load());
    o += ",\"outcomes\":" + std::to_string(G->outc.load());
    o += ",\"states\":" + std::to_string(G->stc.load());
    o += ",\"maxdepth\":" + std::to_string(G->maxdepth.load());
    o += ",\"pruned_preempt\":" + std::to_string(G->pruned[PREEMPT].load());
    o += ",\"pruned_fault\":" + std::to_string(G->pruned[FAULT].load());
    o += ",\"pruned_order\":" + std::to_string(G->pruned[ORDER].load());
    o += std::string(",\"exhaustive\":") + (exhaustive ? "true" : "false");
    o += ",\"unreproduced\":" + std::to_string(nunrep);
    o += ",\"wall_s\":" + std::to_string(wall);
    o += ",\"params\":{";
    bool first = true;
    for (std::map<std::string, int>::iterator it = params.begin();
         it != params.end(); it++)
    {
        if (!first)
            o += ",";
        first = false;
        o += jstr(it->first) + ":" + std::to_string(it->second);
    }
    o += "},\"samples\":[";
    for (int i = 0; i < 8 && i < G->nsamples.load(); i++)
    {
        if (i)
            o += ",";
        o += jstr(G->sample[i]);
    }
    o += "],\"violations\":[" + vj + "],\"known\":[" + kj + "]}";
    if (json.size())
    {
        FILE *f = fopen(json.c_str(), "w");
        if (f)
        {
            fprintf(f, "%s\n", o.c_str());
            fclose(f);
        }
    }
    else
        printf("%s\n", o.c_str());
    cleanup_scratch();
    return nviol ? 1 : 0;
}

} // namespace mc

int main(int argc, char **argv)
{
    return mc::mc_main(argc, argv);
}
