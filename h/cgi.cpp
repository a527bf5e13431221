// CGI programs, run against a model of the kernel: pipes, processes, descriptors.
// ONLY: package session origin filter util xmlutil router_chain gduutil
// WITHOUT: filter_cgi
#include "zh.hpp"
#include <boost/thread/mutex.hpp>
#include <metaproxy/package.hpp>
#include <metaproxy/util.hpp>
#include "gduutil.hpp"
#include <yaz/zgdu.h>
#include <yaz/log.h>
#include <yaz/poll.h>
#include <yaz/xmalloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <poll.h>
#include <sys/wait.h>
#include <sstream>
#include <memory>
#include <set>
#include "config.hpp"

// ---------------------------------------------------------------- kernel
namespace vk {
    enum { CAP = 1024, ATOMIC = 512 };
    struct Pipe { std::string data; int readers, writers; };
    struct End {
        std::shared_ptr<Pipe> p;
        bool write, nonblock, cloexec;
    };
    typedef std::map<int, End> Table;
    struct Proc {
        int pid;
        Table fds;
        std::map<std::string, std::string> env;
        std::string cwd, program;           // empty: exec failed
        bool exited, reaped;
        std::string input;                  // read from stdin
        int thread;
    };
    struct Exec {};                         // thrown by the child's exec
    struct Exit { bool handlers; int code; };
    struct Call {                           // a call of the filter, per thread
        const yf::Base *twin;               // configured the same
        Z_GDU *req;
        std::vector<std::pair<int, int> > pipes;
        size_t used;                        // by the child
        bool forked;
        Proc *child;                        // set while the child's part runs
    };
    static thread_local Call *call;
    static Table parent;
    static std::vector<std::unique_ptr<Proc> > procs;
    static std::set<std::string> dirs, files;
    static bool faults;
    static int next_fd, polls;
    static std::function<void(Proc &)> program; // behaviour of what is executed

    static void reset()
    {
        parent.clear();
        procs.clear();
        next_fd = 1000;
        polls = 0;
        faults = false;
    }
    static void hold(const End &e, int d)
    {
        (e.write ? e.p->writers : e.p->readers) += d;
        if (!e.p->readers)
            e.p->data.clear();
    }
    static Table &table() { return call && call->child ? call->child->fds : parent; }
    static End *get(int fd)
    {
        Table &t = table();
        auto i = t.find(fd);
        return i == t.end() ? 0 : &i->second;
    }
    static void drop(Table &t)
    {
        for (auto &x : t)
            hold(x.second, -1);
        t.clear();
    }
    static bool in_child() { return call && call->child; }
    static void step(const char *w) { if (!in_child()) mc::point(w); }
    static bool fault() { return faults && !in_child() && mc::flip(mc::FAULT); }
    static int do_close(Table &t, int fd)
    {
        auto i = t.find(fd);
        if (i == t.end())
        {
            errno = EBADF;
            return -1;
        }
        hold(i->second, -1);
        t.erase(i);
        return 0;
    }
    static bool can_read(const End &e) { return e.p->data.size() || !e.p->writers; }
    static bool can_write(const End &e)
    { return CAP - e.p->data.size() >= ATOMIC || !e.p->readers; }
    static ssize_t do_read(End e, char *b, size_t n)
    {
        if (!can_read(e))
        {
            if (e.nonblock)
            {
                errno = EAGAIN;
                return -1;
            }
            mc::block_until([&]() { return can_read(e); }, "read");
        }
        n = std::min(n, e.p->data.size());
        memcpy(b, e.p->data.data(), n);
        e.p->data.erase(0, n);
        return n;
    }
    static ssize_t do_write(End e, const char *b, size_t n)
    {
        auto fits = [&]() {
            size_t room = CAP - e.p->data.size();
            return !e.p->readers || (n <= ATOMIC ? room >= n : room > 0); };
        if (!fits())
        {
            if (e.nonblock)
            {
                errno = EAGAIN;
                return -1;
            }
            mc::block_until(fits, "write");
        }
        if (!e.p->readers)
        {
            errno = EPIPE;
            return -1;
        }
        n = std::min(n, CAP - e.p->data.size());
        e.p->data.append(b, n);
        return n;
    }
    // directory reached from d by going to p
    static std::string join(const std::string &d, const std::string &p)
    {
        std::string s = p.size() && p[0] == '/' ? p : d + "/" + p, r;
        for (size_t i = 0; i < s.size(); )
        {
            size_t j = s.find('/', i);
            if (j == std::string::npos)
                j = s.size();
            std::string c = s.substr(i, j - i);
            if (c == "..")
                r = r.substr(0, r.rfind('/') == std::string::npos ? 0 : r.rfind('/'));
            else if (c.size() && c != ".")
                r += "/" + c;
            i = j + 1;
        }
        return r.size() ? r : "/";
    }
    static Proc *running(int pid)
    {
        for (auto &p : procs)
            if (p->pid == pid && !p->reaped)
                return p.get();
        return 0;
    }
}
using vk::call;

static int vk_pipe2(int *fds, int flags)
{
    mc::NoRace quiet;
    vk::step("pipe");
    if (vk::in_child())
    {
        if (call->forked)
            mc::fail("harness:kernel", "pipe made by the child");
        if (call->used >= call->pipes.size())
            mc::fail("harness:kernel", "pipe not made by the parent");
        fds[0] = call->pipes[call->used].first;
        fds[1] = call->pipes[call->used++].second;
        return 0;
    }
    if (vk::fault())
    {
        errno = EMFILE;
        return -1;
    }
    auto p = std::make_shared<vk::Pipe>();
    p->readers = p->writers = 1;
    for (int i = 0; i < 2; i++)
    {
        fds[i] = vk::next_fd++;
        vk::End e = { p, i == 1, !!(flags & O_NONBLOCK), !!(flags & O_CLOEXEC) };
        vk::parent[fds[i]] = e;
    }
    if (call)
        call->pipes.push_back(std::make_pair(fds[0], fds[1]));
    return 0;
}
static int vk_pipe(int *fds) { return vk_pipe2(fds, 0); }
static int vk_close(int fd)
{
    mc::NoRace quiet;
    vk::step("close");
    if (vk::in_child() && !call->forked)
        return 0;               // was done by the parent
    if (vk::in_child() && fd <= 2 && !vk::get(fd))
        return 0;               // inherited from the proxy
    int r = vk::do_close(vk::table(), fd);
    if (r && !vk::in_child())
        mc::fail("closes-other-file", "closes descriptor %d, which it has not got "
                 "(or not any more)", fd);
    return r;
}
static int vk_dup2(int fd, int to)
{
    mc::NoRace quiet;
    vk::End *e = vk::get(fd);
    if (!vk::in_child() || !call->forked)
        mc::fail("harness:kernel", "dup outside of the child");
    if (!e)
    {
        errno = EBADF;
        return -1;
    }
    if (fd == to)
        return to;
    vk::End n = *e;
    n.cloexec = false;
    vk::hold(n, 1);
    vk::do_close(vk::table(), to);
    vk::table()[to] = n;
    call->child->fds[to] = n;
    return to;
}
// descriptors 0 to 2 of the proxy are open until the child closes them
static thread_local std::set<int> closed_std;
static int vk_child_close(int fd)
{
    mc::NoRace quiet;
    if (vk::in_child() && call->forked && fd <= 2)
        closed_std.insert(fd);
    return vk_close(fd);
}
static int vk_dup(int fd)
{
    mc::NoRace quiet;
    for (int i = 0; i <= 2; i++)
        if (closed_std.count(i) && !vk::get(i))
        {
            closed_std.erase(i);
            return vk_dup2(fd, i);
        }
    return vk_dup2(fd, vk::next_fd++);
}
static ssize_t vk_read(int fd, void *b, size_t n)
{
    mc::NoRace quiet;
    vk::step("read");
    vk::End *e = vk::get(fd);
    if (!e || e->write)
    {
        errno = EBADF;
        return -1;
    }
    return vk::do_read(*e, (char *) b, n);
}
static ssize_t vk_write(int fd, const void *b, size_t n)
{
    mc::NoRace quiet;
    vk::step("write");
    vk::End *e = vk::get(fd);
    if (!e || !e->write)
    {
        errno = EBADF;
        return -1;
    }
    return vk::do_write(*e, (const char *) b, n);
}
static int vk_fcntl(int fd, int cmd, int arg = 0)
{
    mc::NoRace quiet;
    vk::step("fcntl");
    vk::End *e = vk::get(fd);
    if (!e)
    {
        errno = EBADF;
        return -1;
    }
    switch (cmd)
    {
    case F_GETFL:
        return (e->write ? O_WRONLY : O_RDONLY) | (e->nonblock ? O_NONBLOCK : 0);
    case F_SETFL:
        e->nonblock = !!(arg & O_NONBLOCK);
        return 0;
    case F_GETFD:
        return e->cloexec ? FD_CLOEXEC : 0;
    case F_SETFD:
        e->cloexec = !!(arg & FD_CLOEXEC);
        return 0;
    }
    mc::fail("harness:kernel", "fcntl %d", cmd);
}
static int vk_yaz_poll(struct yaz_poll_fd *fds, int num, int sec, int nsec)
{
    mc::NoRace quiet;
    vk::step("poll");
    if (++vk::polls > 400)
        mc::fail("spins", "more than 400 rounds without an end");
    auto look = [&]() {
        int n = 0;
        for (int i = 0; i < num; i++)
        {
            fds[i].output_mask = yaz_poll_none;
            vk::End *e = vk::get(fds[i].fd);
            int m = 0;
            if (!e)
                m = yaz_poll_except;
            else if (e->write)
            {
                if (fds[i].input_mask & yaz_poll_write
                    && vk::CAP - e->p->data.size() >= vk::ATOMIC)
                    m |= yaz_poll_write;
                if (!e->p->readers)
                    m |= yaz_poll_except;
            }
            else
            {
                if (fds[i].input_mask & yaz_poll_read && e->p->data.size())
                    m |= yaz_poll_read;
                if (!e->p->writers)
                    m |= yaz_poll_except;
            }
            fds[i].output_mask = (enum yaz_poll_mask) m;
            n += m != 0;
        }
        return n; };
    int n = 0;
    if (sec < 0)
        mc::block_until([&]() { return (n = look()) > 0; }, "poll");
    else
        mc::block_until_timeout([&]() { return (n = look()) > 0; },
                                mc::now_ms() + sec * 1000 + nsec / 1000000, "poll");
    return n;
}
static pid_t vk_fork()
{
    mc::NoRace quiet;
    vk::step("fork");
    if (!call)
        mc::fail("harness:kernel", "fork outside of a call");
    if (vk::in_child())
    {
        if (call->forked)
            mc::fail("harness:kernel", "the child forks");
        call->forked = true;
        return 0;
    }
    if (vk::fault())
    {
        errno = EAGAIN;
        return -1;
    }
    std::unique_ptr<vk::Proc> np(new vk::Proc);
    vk::Proc &p = *np;
    p.pid = 5000 + vk::procs.size();
    p.fds = vk::parent;
    p.cwd = "/";
    p.exited = p.reaped = false;
    p.thread = -1;
    for (auto &x : p.fds)
        vk::hold(x.second, 1);
    vk::procs.push_back(std::move(np));
    // the child's part
    call->used = 0;
    call->forked = false;
    call->child = &p;
    closed_std.clear();
    bool run = false;
    mc::calm(true);
    {
        mp::Package pk;
        mp::Session s;
        pk.request() = yazpp_1::GDU(call->req);
        try
        {
            call->twin->process(pk);
            mc::fail("child-returns", "the child process goes on as a second proxy");
        }
        catch (vk::Exec &) { run = true; }
        catch (vk::Exit &e)
        {
            if (e.handlers)
                mc::fail("exit-handlers", "the child process that cannot run the program "
                         "runs the proxy's exit handlers");
        }
    }
    mc::calm(false);
    call->child = 0;
    if (!run)
    {
        vk::drop(p.fds);
        p.exited = true;
        return p.pid;
    }
    for (auto i = p.fds.begin(); i != p.fds.end(); )
        if (i->second.cloexec)
        {
            vk::hold(i->second, -1);
            i = p.fds.erase(i);
        }
        else
            ++i;
    p.thread = mc::spawn([&p]() {
        mc::NoRace quiet;
        call = 0;
        vk::program(p);
        mc::point("exit");
        vk::drop(p.fds);
        p.exited = true; });
    return p.pid;
}
static pid_t vk_waitpid(pid_t pid, int *status, int opt)
{
    mc::NoRace quiet;
    vk::step("waitpid");
    vk::Proc *p = vk::running(pid);
    if (!p)
    {
        errno = ECHILD;
        return -1;
    }
    if (opt & WNOHANG && !p->exited)
        return 0;
    mc::block_until([&]() { return p->exited; }, "waitpid");
    p->reaped = true;
    if (status)
        *status = 0;
    return pid;
}
static int vk_kill(pid_t pid, int sig)
{
    mc::NoRace quiet;
    mc::fail("kills", "signal %d for process %d", sig, (int) pid);
}
static int vk_setenv(const char *n, const char *v, int over)
{
    mc::NoRace quiet;
    if (!vk::in_child())
        mc::fail("parent-environment", "%s=%s set for the proxy itself", n, v);
    if (over || !call->child->env.count(n))
        call->child->env[n] = v;
    return 0;
}
static int vk_chdir(const char *d)
{
    mc::NoRace quiet;
    if (!vk::in_child())
        mc::fail("parent-directory", "the proxy itself changes to %s", d);
    std::string n = *d ? vk::join(call->child->cwd, d) : "";
    if (!vk::dirs.count(n))
    {
        errno = ENOENT;
        return -1;
    }
    call->child->cwd = n;
    return 0;
}
static int vk_exec(const char *p)
{
    mc::NoRace quiet;
    std::string n = vk::join(call->child->cwd, p);
    if (!vk::files.count(n))
    {
        errno = ENOENT;
        return -1;
    }
    call->child->program = n;
    throw vk::Exec();
}
static void vk_exit(bool handlers, int code)
{
    mc::NoRace quiet;
    if (!vk::in_child())
        mc::fail("proxy-exits", "the proxy itself exits");
    vk::Exit e = { handlers, code };
    throw e;
}

#define pipe vk_pipe
#define pipe2 vk_pipe2
#define dup vk_dup
#define dup2 vk_dup2
#define close(...) VK_CLOSE(__VA_ARGS__)
#define VK_CLOSE(...) vk_child_close(__VA_ARGS__)
#define read vk_read
#define write vk_write
#define fcntl vk_fcntl
#define yaz_poll vk_yaz_poll
#define fork vk_fork
#define vfork vk_fork
#define waitpid vk_waitpid
#define kill vk_kill
#define setenv vk_setenv
#define chdir vk_chdir
#define execl(p, ...) vk_exec(p)
#define execlp(p, ...) vk_exec(p)
#define execle(p, ...) vk_exec(p)
#define execv(p, ...) vk_exec(p)
#define execve(p, ...) vk_exec(p)
#define exit(c) vk_exit(true, c)
#define _exit(c) vk_exit(false, c)
#define _Exit(c) vk_exit(false, c)
#include "filter_cgi.cpp"
#undef pipe
#undef dup
#undef dup2
#undef close
#undef read
#undef write
#undef fcntl
#undef fork
#undef waitpid
#undef kill
#undef exit
#undef _exit

// ---------------------------------------------------------------- programs
static const char *const acts[] = {
    "RW", "WR", "W", "iW", "rWR", "", "WoR", "wRe", "oR", "RiWo" };
enum { NACT = sizeof(acts) / sizeof(*acts) };

static std::string output(int o)
{
    std::string big;
    for (int i = 0; i < 2300; i++)
        big += (char) (i * 7 % 256);
    switch (o)
    {
    case 0: return "Content-Type: text/plain\r\n\r\nhello";
    case 1: return "X: y\r\nContent-Type: a/b\r\n\r\n" + big;
    case 2: return "Content-Length: 3\r\n\r\nabc";
    case 3: return "Content-Type: text/plain\n\nhi";
    case 4: return "Content-Type: text/plain\r\nContent-Length: 10\r\n\r\nabc";
    case 5: return "garbage";
    case 6: return "";
    }
    return "Content-Type: text/plain\r\n\r\n";
}
enum { NOUT = 8 };

static bool answered;           // the request of another client has been

static void behave(vk::Proc &p)
{
    const std::string q = p.env["QUERY_STRING"];
    int a = q.size() > 0 ? q[0] - 'a' : 0, o = q.size() > 1 ? q[1] - 'a' : 0;
    std::string out = output(o);
    size_t done = 0, len = atoi(p.env["CONTENT_LENGTH"].c_str());
    auto fd = [&](int n) { auto i = p.fds.find(n); return i == p.fds.end() ? 0 : &i->second; };
    auto rd = [&](size_t upto) {
        while (p.input.size() < upto)
        {
            char b[700];
            mc::point("script");
            vk::End *e = fd(0);
            if (!e)
                break;
            ssize_t n = vk::do_read(*e, b, std::min(sizeof b, upto - p.input.size()));
            if (n <= 0)
                break;
            p.input.append(b, n);
        } };
    auto wr = [&](size_t upto) {
        while (done < upto)
        {
            mc::point("script");
            vk::End *e = fd(1);
            if (!e)
                return false;
            ssize_t n = vk::do_write(*e, out.data() + done, upto - done);
            if (n <= 0)
                return false;
            done += n;
        }
        return true; };
    std::string s = a == 'z' - 'a' ? "z" : acts[a % NACT];
    if (s == "z")               // answers when another client has been answered
    {
        mc::block_until([]() { mc::NoRace quiet; return answered; }, "other client");
        s = "RW";
    }
    for (char c : s)
        switch (c)
        {
        case 'R': rd(len); break;
        case 'r': rd(std::min<size_t>(len, 3)); break;
        case 'W': if (!wr(out.size())) return; break;
        case 'w': if (!wr(out.size() / 2)) return; break;
        case 'e': if (!wr(out.size())) return; break;
        case 'i': mc::point("script"); vk::do_close(p.fds, 0); break;
        case 'o': mc::point("script"); vk::do_close(p.fds, 1); break;
        }
}
// does the program with these actions get the whole input / output through
static bool reads_all(int a) { return strchr(acts[a], 'R'); }
static size_t writes(int a, size_t n)
{
    std::string s = acts[a];
    return s.find('W') != std::string::npos || s.find('e') != std::string::npos ? n : 0;
}

static std::string http(const Z_HTTP_Response *r)
{
    std::string s = std::to_string(r->code);
    for (Z_HTTP_Header *h = r->headers; h; h = h->next)
        if (strcasecmp(h->name, "Content-Length"))  // added when passed on
            s += std::string("|") + h->name + ":" + h->value;
    return s + "|" + (r->content_buf ? std::string(r->content_buf, r->content_len) : "");
}
// what the client should get for that output
static std::string expect(const std::string &out)
{
    std::string s = "HTTP/1.1 200 OK\r\n" + out;
    ODR d = odr_createmem(ODR_DECODE);
    odr_setbuf(d, (char *) s.data(), s.size(), 0);
    Z_GDU *g = 0;
    std::string r = "error";
    if (z_GDU(d, &g, 0, 0) && g && g->which == Z_GDU_HTTP_Response)
        r = http(g->u.HTTP_Response);
    odr_destroy(d);
    return r;
}
static std::string got(mp::Package &p)
{
    Z_GDU *g = p.response().get();
    if (!g)
        return "none";
    if (g->which != Z_GDU_HTTP_Response)
        return "other";
    int c = g->u.HTTP_Response->code;
    return c >= 400 ? "error" : http(g->u.HTTP_Response);
}

struct Cgi {
    std::unique_ptr<yf::Base> f, twin;
    zh::Fn next;
    int passed;
    zh::Routes r;
    Cgi(const std::string &x) : passed(0)
    {
        for (int i = 0; i < 2; i++)
        {
            std::unique_ptr<yf::Base> &b = i ? twin : f;
            b.reset(metaproxy_1_filter_cgi.creator());
            std::string err;
            if (!zh::configure_ok(*b, "<f xmlns='http://indexdata.com/metaproxy'>" + x
                                  + "</f>", &err))
                mc::fail("configuration", "%s: %s", x.c_str(), err.c_str());
        }
        next.f = [this](mp::Package &p) {
            passed++;
            Z_GDU *g = p.request().get();
            mp::odr o;
            if (g && g->which == Z_GDU_HTTP_Request)
                p.response() = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 299);
        };
        r.r[""].push_back(f.get());
        r.r[""].push_back(&next);
    }
    std::string send(zh::Client &c, Z_GDU *g)
    {
        std::string res;
        vk::Call k = { twin.get(), g, {}, 0, false, 0 };
        call = &k;
        c.send(g, [&](mp::Package &p) { mc::NoRace quiet; res = got(p); });
        call = 0;
        return res;
    }
    // nothing may be left when all requests have been answered
    void left()
    {
        for (auto &p : vk::procs)
            if (!p->reaped)
                mc::fail("zombie", "process %d has not been waited for", p->pid);
        if (vk::parent.size())
            mc::fail("file-left-open", "%zu descriptors are left open",
                     vk::parent.size());
    }
};

static void own_files(vk::Proc &p)
{
    for (auto &x : p.fds)
        if (x.first > 2)
            mc::note("process %d inherits descriptor %d", p.pid, x.first);
}

static void header(ODR o, Z_GDU *g, const char *n, const char *v)
{
    z_HTTP_header_set(o, &g->u.HTTP_Request->headers, n, v);
}

// one request: the program and the proxy proceed in any order
MC_SCENARIO(cgi_io, 0)
{
    zh::quiet();
    int a = mc::choose(NACT), o = mc::choose(NOUT);
    static const int sizes[] = { 0, 5, 1700 };
    int n = sizes[mc::choose(3)];
    vk::reset();
    vk::dirs = { "/", "/bin" };
    vk::files = { "/bin/p" };
    vk::program = [&](vk::Proc &p) { own_files(p); behave(p); };
    mc::clock_reset();
    int64_t t0 = mc::now_ms();
    std::string res, body(n, 'x');
    for (int i = 0; i < n; i++)
        body[i] = 'a' + i % 23;
    {
        Cgi c("<map path='/p' exec='/bin/p'/>");
        mc::sched_begin();
        {
            zh::Client cl(c.r);
            ODR od = odr_createmem(ODR_ENCODE);
            std::string path = "/p?";
            path += (char) ('a' + a);
            path += (char) ('a' + o);
            Z_GDU *g = zh::http_req(od, path, n ? "POST" : "GET", body);
            if (n)
                header(od, g, "Content-Type", "x/y");
            res = c.send(cl, g);
            odr_destroy(od);
        }
        for (auto &p : vk::procs)
            if (p->thread >= 0)
                mc::join(p->thread);
        int64_t t = mc::now_ms() - t0;
        mc::sched_end();
        std::string out = output(o), want = expect(out.substr(0, writes(a, out.size())));
        if (vk::procs.size() != 1)
            mc::fail("processes", "%zu started", vk::procs.size());
        if (res != want)
            mc::fail("response", "program %s writing '%.40s' (%zu bytes), body of %d: "
                     "response %.80s (%zu), not %.80s (%zu)", acts[a], out.c_str(),
                     out.size(), n, res.c_str(), res.size(), want.c_str(), want.size());
        const std::string &in = vk::procs[0]->input;
        if (body.compare(0, in.size(), in) || (reads_all(a) && in.size() != body.size()
                                               && strchr(acts[a], 'o') == 0))
            mc::fail("body", "program %s got %zu bytes of the body of %d", acts[a],
                     in.size(), n);
        if (t)
            mc::fail("waits", "program %s: waits %ld ms for nothing", acts[a], (long) t);
        c.left();
        if (c.passed)
            mc::fail("passed-on", "request also went on to the next filter");
    }
    mc::evaluated();
    mc::outcome(res.substr(0, 60) + std::to_string(a) + std::to_string(o));
    mc::state(std::string(acts[a]) + std::to_string(o) + std::to_string(n) + res);
}

// what the program is given, and what happens when resources are short
struct Map { const char *path, *exec; };
struct Conf { const char *root; std::vector<Map> m; std::vector<Map> env; };
static const Conf confs[] = {
    { 0, { { "/p", "/bin/p" } }, {} },
    { "/srv", { { "/p", "./p" }, { "/q/", "sub/q" } }, { { "X", "1" }, { "Y", "" } } },
    { "/srv/", { { "/p/a", "/bin/q" }, { "/p", "p" }, { "/p/a/b", "/bin/p" } },
      { { "GATEWAY_INTERFACE", "other" }, { "REQUEST_METHOD", "NO" }, { "", "z" } } },
    { "/nowhere", { { "/p", "p" }, { "/q", "/bin/p" } }, {} },
    { "/srv", { { "/p", "missing" }, { "/q", "none/p" }, { "", "../bin/p" } },
      { { "X", "a b=c\"&amp;" } } },
    { "/srv", { { "/q", "/q" }, { "/p", "/srv/../bin/./q" } }, { { "X", "1" } } },
    { "/srv", {}, { { "X", "1" } } },
};
enum { NCONF = sizeof(confs) / sizeof(*confs) };
static const char *const paths[] = { "/p", "/p?", "/p?bc", "/p/a/b?x=1&y=?z/", "/px/../y",
    "/q/", "/q", "/", "/P", "/p/a?", "/q/r%20s?%41+" };
static const char *const heads[][2] = { { "Cookie", "HTTP_COOKIE" },
    { "User-Agent", "HTTP_USER_AGENT" }, { "Accept", "HTTP_ACCEPT" },
    { "Accept-Encoding", "HTTP_ACCEPT_ENCODING" }, { "Content-Type", "CONTENT_TYPE" },
    { "X-Other", 0 } };

MC_SCENARIO(cgi_env, 0)
{
    zh::quiet();
    const Conf &cf = confs[mc::choose(NCONF)];
    std::string path = paths[mc::choose(sizeof(paths) / sizeof(*paths))];
    static const char *const methods[] = { "GET", "POST", "HEAD", "PUT" };
    const char *method = methods[mc::choose(4)];
    int hs = mc::choose(9), body = mc::choose(2);
    vk::reset();
    vk::dirs = { "/", "/bin", "/srv", "/srv/sub" };
    vk::files = { "/bin/p", "/bin/q", "/srv/p", "/srv/sub/q", "/p", "/q", "/srv/q" };
    vk::faults = true;
    vk::program = [&](vk::Proc &p) {
        const char *s = "Content-Type: t/p\r\n\r\nran";
        vk::do_write(p.fds[1], s, strlen(s)); };
    std::string x;
    if (cf.root)
        x += std::string("<documentroot>") + cf.root + "</documentroot>";
    for (auto &e : cf.env)
        x += std::string("<env name='") + e.path + "' value='" + e.exec + "'/>";
    for (auto &m : cf.m)
        x += std::string("<map path='") + m.path + "' exec='" + m.exec + "'/>";
    std::string res;
    Cgi c(x);
    std::map<std::string, std::string> env;
    mc::clock_reset();
    mc::sched_begin();
    {
        zh::Client cl(c.r);
        ODR od = odr_createmem(ODR_ENCODE);
        Z_GDU *g = zh::http_req(od, path, method, body ? "12345" : "");
        if (const char *v = z_HTTP_header_lookup(g->u.HTTP_Request->headers, "User-Agent"))
            env["HTTP_USER_AGENT"] = v;
        for (int i = 0; i < 6; i++)
            if (hs == 7 || hs == i + 1)
            {
                header(od, g, heads[i][0], "v");
                if (heads[i][1])
                    env[heads[i][1]] = "v";
            }
        if (hs == 8)
        {
            header(od, g, "Cookie", "");
            env["HTTP_COOKIE"] = "";
        }
        mc::calm(true);
        res = c.send(cl, g);
        odr_destroy(od);
        // other traffic is not affected
        ODR o2 = odr_createmem(ODR_ENCODE);
        int n = c.passed;
        cl.send(zh::search_req(o2, "x", "s", zh::v("db")));
        odr_destroy(o2);
        if (c.passed != n + 1)
            mc::fail("other-requests", "Z39.50 requests do not pass");
        c.passed = n;
    }
    for (auto &p : vk::procs)
        if (p->thread >= 0)
            mc::join(p->thread);
    mc::sched_end();
    c.left();
    const Map *m = 0;
    for (auto &k : cf.m)
        if (!m && !path.compare(0, strlen(k.path), k.path))
            m = &k;
    std::string at = cf.root ? cf.root : ".", what;
    if (!m)
    {
        if (vk::procs.size() || c.passed != 1 || res.substr(0, 3) != "299")
            mc::fail("unmapped", "%s: %s, %d passed on", path.c_str(), res.c_str(), c.passed);
        what = "unmapped";
    }
    else
    {
        if (c.passed)
            mc::fail("passed-on", "%s also went on to the next filter", path.c_str());
        std::string root = vk::join("/", at), prog = m->exec;
        size_t s = prog.rfind('/');
        std::string dir = s == std::string::npos ? root
            : s ? vk::join(root, prog.substr(0, s)) : "/";
        bool can = vk::dirs.count(root) && vk::dirs.count(dir);
        std::string file = vk::join(dir, prog.substr(s == std::string::npos ? 0 : s + 1));
        can = can && vk::files.count(file);
        if (vk::procs.empty())  // resources were short
        {
            if (res != "error")
                mc::fail("shortage", "%s: response %s without a program", path.c_str(),
                         res.c_str());
            what = "shortage";
        }
        else
        {
            vk::Proc &p = *vk::procs[0];
            if (vk::procs.size() != 1)
                mc::fail("processes", "%zu started", vk::procs.size());
            if (p.program.size() && (!can || p.program != file || p.cwd != dir))
                mc::fail("program", "%s: %s runs in %s, not %s in %s", path.c_str(),
                         p.program.c_str(), p.cwd.c_str(), can ? file.c_str() : "none",
                         dir.c_str());
            if (can && p.program.empty())
                mc::fail("program", "%s: %s does not run", path.c_str(), file.c_str());
            if (can != (res == "200|Content-Type:t/p|ran") || (!can && res != "error" && res != "200|"))
                mc::fail("response", "%s: response %s", path.c_str(), res.c_str());
            std::string rest = path.substr(strlen(m->path));
            size_t q = rest.find('?');
            env["REQUEST_METHOD"] = method;
            env["REQUEST_URI"] = path;
            env["SCRIPT_NAME"] = m->path;
            env["PATH_INFO"] = rest.substr(0, q);
            env["QUERY_STRING"] = q == std::string::npos ? "" : rest.substr(q + 1);
            env["DOCUMENT_ROOT"] = at;
            env["GATEWAY_INTERFACE"] = "CGI/1.1";
            if (env.count("CONTENT_TYPE"))
                env["CONTENT_LENGTH"] = body ? "5" : "0";
            for (auto &e : cf.env)
                if (*e.path)
                    env[e.path] = e.path[0] == 'X' && strchr(e.exec, '&') ? "a b=c\"&" : e.exec;
            if (can)
                for (auto &e : env)
                    if (!p.env.count(e.first) || p.env[e.first] != e.second)
                        mc::fail("environment", "%s %s: %s is %s, not '%s'", method,
                                 path.c_str(), e.first.c_str(), p.env.count(e.first)
                                 ? p.env[e.first].c_str() : "missing", e.second.c_str());
            if (can)
                for (auto &h : heads)
                    if (h[1] && !env.count(h[1]) && p.env.count(h[1]))
                        mc::fail("environment", "%s %s: %s is %s for no reason", method,
                                 path.c_str(), h[1], p.env[h[1]].c_str());
            what = can ? "ran " + file : "cannot run";
        }
    }
    mc::evaluated();
    mc::outcome(what);
    mc::state(x + path + method + std::to_string(hs) + what);
}

// requests of several clients at the same time
MC_SCENARIO(cgi_mt, 0)
{
    zh::quiet();
    int k = mc::choose(3), o = mc::choose(2);
    vk::reset();
    vk::dirs = { "/", "/bin" };
    vk::files = { "/bin/p" };
    vk::program = behave;
    mc::clock_reset();
    int64_t t0 = mc::now_ms();
    answered = false;
    std::string res[2];
    // clients: first is answered whatever the program of the other does
    static const char *const qs[][2] = { { "/p?aa", "/p?za" }, { "/p?ab", "/p?aa" },
                                         { "/p?ga", "/p?za" } };
    {
        Cgi c("<map path='/p' exec='/bin/p'/>");
        mc::sched_begin();
        {
            std::vector<int> th;
            for (int i = 0; i < 2; i++)
                th.push_back(mc::spawn([&, i]() {
                    zh::Client cl(c.r);
                    ODR od = odr_createmem(ODR_ENCODE);
                    Z_GDU *g = zh::http_req(od, qs[k][i], o ? "POST" : "GET",
                                            o ? (i ? "second" : "1st") : "");
                    if (o)
                        header(od, g, "Content-Type", "x/y");
                    std::string got = c.send(cl, g);
                    odr_destroy(od);
                    mc::NoRace quiet;
                    res[i] = got;
                    if (i == 0)
                        answered = true;
                }));
            for (int t : th)
                mc::join(t);
        }
        for (size_t i = 0; i < vk::procs.size(); i++)
            if (vk::procs[i]->thread >= 0)
                mc::join(vk::procs[i]->thread);
        int64_t t = mc::now_ms() - t0;
        mc::sched_end();
        for (int i = 0; i < 2; i++)
            if (res[i] != expect(output(qs[k][i][4] - 'a')))
                mc::fail("response", "client %d: %s is answered %.80s", i, qs[k][i],
                         res[i].c_str());
        for (auto &p : vk::procs)
        {
            std::string want = !o ? "" : p->env["QUERY_STRING"] == qs[k][0] + 3 ? "1st"
                : "second";
            if (p->input != want)
                mc::fail("body", "a program gets '%s', not '%s'", p->input.c_str(),
                         want.c_str());
        }
        if (t)
            mc::fail("waits", "a response waits %ld ms for programs of other requests",
                     (long) t);
        c.left();
        if (c.passed)
            mc::fail("passed-on", "request also went on to the next filter");
    }
    mc::evaluated();
    mc::outcome(res[0].substr(0, 40));
    mc::state(std::to_string(k) + std::to_string(o) + res[0] + res[1]);
}
