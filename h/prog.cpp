// The program: options, configuration, start and stop.
// WITHOUT: filter_template
#include "zh.hpp"
#include <dirent.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <iostream>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xinclude.h>
#include <yaz/log.h>
#include <yaz/options.h>
#include <yaz/daemon.h>
#include <yaz/sc.h>
#include <yaz/backtrace.h>
#include <yaz/xml_include.h>
#include <yaz/yaz-version.h>
#include <metaproxy/router_xml.hpp>

// ---------------------------------------------------------------- surroundings
namespace {
jmp_buf gone;                           // the process ended
int gone_code;
typedef void (*Handler)(int);
enum { NPROBES = 3 };
struct World {
    Handler term, usr1;
    bool daemon, running, ended, group, in_handler, child;
    unsigned mode;
    std::string pidfile, user, dir, log;
    long limit;
    int starts, configured, tested, live, allocs, groups_killed;
    std::vector<int> stops;
    std::string base;
    int at, left;                       // where signals may come
    int sig[2];
    int delivered[2];
    bool seen[64];
    bool serving;
    bool real;                          // files may be read
    int quit;                           // signal that ends the serving filter
};
World *w;
std::map<std::string, std::string> files;

void deliver(int signo);
int told()                              // what the program was told so far
{
    int r = 0;
    for (int i = 0; i < 2; i++)
        if (w->delivered[i] && !w->child && (!r || w->sig[i] == SIGTERM))
            r = w->sig[i];
    return r;
}
void here()                             // a signal may come now
{
    if (!w->left || w->in_handler || w->ended)
        return;
    for (int i = 0; i < 2; i++)
        if (w->sig[i] && !w->delivered[i] && mc::flip())
        {
            w->delivered[i] = 1;
            w->left--;
            deliver(w->sig[i]);
        }
}

// the program's filters, apart from the real ones
struct Probe : public yf::Base {
    bool front;
    Probe() : front(false) { w->live++; }
    ~Probe() { w->live--; here(); }
    void configure(const xmlNode *p, bool test, const char *path)
    {
        w->configured++;
        w->tested += test;
        w->base = path ? path : "(none)";
        for (p = p->children; p; p = p->next)
            if (p->type == XML_ELEMENT_NODE && !strcmp((const char *) p->name, "front"))
                front = true;
            else if (p->type == XML_ELEMENT_NODE)
                throw mp::filter::FilterException("bad element");
    }
    void start() const
    {
        here();
        w->starts++;
        here();
    }
    void stop(int signo) const
    {
        w->stops.push_back(signo);
        if (front && (!w->quit || signo == SIGTERM))
            w->quit = signo;
    }
    void process(mp::Package &p) const
    {
        here();
        if (front)
        {
            // serves until it is told to stop
            w->serving = true;
            for (int i = 0; i < 3; i++)
            {
                int want = told();
                if (want != w->quit && want)
                    mc::fail("lost", "signal %d came but the server goes on (%d)", want,
                             w->quit);
                if (w->quit)
                    break;
                here();
            }
            w->serving = false;
            here();
        }
        p.move();
        here();
    }
};
mp::filter::Base *probe() { return new Probe; }

int my_getpgid(int) { here(); return 4711; }
int my_setpgid(int, int) { w->group = true; return 0; }
pid_t my_getpid() { here(); return w->child && w->in_handler ? 4713 : 4712; }
int my_kill(pid_t p, int signo)
{
    if (p != -4711 || signo != SIGTERM)
        mc::fail("kill", "kill(%d, %d)", (int) p, signo);
    w->groups_killed++;
    deliver(SIGTERM);                   // the process is in that group
    return 0;
}
Handler my_signal(int signo, Handler h)
{
    (signo == SIGTERM ? w->term : w->usr1) = h;
    here();
    return 0;
}
int my_chdir(const char *d)
{
    if (!strcmp(d, "nodir"))
        return -1;
    w->dir = d;
    return 0;
}
int my_setrlimit(int r, const struct rlimit *l)
{
    if (r != RLIMIT_NOFILE || l->rlim_cur != l->rlim_max)
        mc::fail("limit", "unexpected limit");
    w->limit = l->rlim_cur;
    return 0;
}
void my_exit(int code)
{
    w->ended = true;
    gone_code = code;
    longjmp(gone, 1);
}
xmlDocPtr my_read(const char *name, const char *, int options)
{
    auto f = files.find(name);
    if (f == files.end() && w->real)
        return (xmlReadFile)(name, 0, options);
    return f == files.end() ? 0
        : xmlReadMemory(f->second.data(), (int) f->second.size(), name, 0, options);
}
int my_daemon(const char *, unsigned mode, void (*work)(void *), void *data,
              const char *pidfile, const char *uid)
{
    w->daemon = true;
    w->mode = mode;
    w->pidfile = pidfile ? pidfile : "";
    w->user = uid ? uid : "";
    if (w->starts)
        mc::fail("early-start", "filters started before going to the background");
    work(data);
    return 0;
}
// as YAZ's, but can be used again in the same process
int arg_no, arg_off;
int my_options(const char *desc, char **argv, int argc, char **arg)
{
    *arg = 0;
    if (arg_no >= argc)
        return -2;
    const char *a = argv[arg_no];
    if (a[0] != '-' || !a[1])
    {
        *arg = argv[arg_no++];
        return 0;
    }
    bool lng = a[1] == '-';
    for (const char *d = desc; *d; )
    {
        char c = *d++;
        std::string name;
        if (*d == '{')
        {
            const char *e = strchr(d, '}');
            name.assign(d + 1, e - d - 1);
            d = e + 1;
        }
        bool has = *d == ':';
        if (has)
            d++;
        if (lng ? name != a + 2 : a[1] != c || (a[2] && !has))
            continue;
        arg_no++;
        if (has)
        {
            if (!lng && a[2])
                *arg = argv[arg_no - 1] + 2;
            else if (arg_no < argc)
                *arg = argv[arg_no++];
            else
                return -1;
        }
        return c;
    }
    *arg = argv[arg_no++];
    return -1;
}
}

extern "C" {
struct metaproxy_1_filter_struct metaproxy_1_filter_template = { 0, "template", probe };
}

#define main mp_main
#define exit my_exit
#define _exit my_exit
#define kill my_kill
#define signal my_signal
#define getpid my_getpid
#define getpgid my_getpgid
#define setpgid my_setpgid
#define chdir my_chdir
#define setrlimit my_setrlimit
#define xmlReadFile my_read
#define yaz_daemon my_daemon
#define options my_options
#define yaz_log_init_file(f) (w->log = f)
#define yaz_enable_panic_backtrace(x)
#include "../src/metaproxy_prog.cpp"
#undef main
#undef exit
#undef _exit
#undef kill
#undef signal
#undef getpid
#undef options

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));

namespace {
void counted(const volatile void *, size_t)
{
    if (w && w->in_handler)
        w->allocs++;
}
void freed(const volatile void *)
{
    if (w && w->in_handler)
        w->allocs++;
}
void deliver(int signo)
{
    static bool pending;
    if (w->in_handler)                  // held back until the handler is done
    {
        pending = true;
        return;
    }
    Handler h = signo == SIGTERM ? w->term : w->usr1;
    if (!h)
        my_exit(1000 + signo);
    bool first = !w->child && w->live == NPROBES && !w->seen[SIGTERM] && !w->seen[signo];
    size_t n = w->stops.size();
    w->seen[signo] = true;
    w->in_handler = true;
    h(signo);
    w->in_handler = false;
    if (first && w->stops.size() != n + NPROBES)
        mc::fail("reach", "signal %d reaches %d of %d filters", signo,
                 (int) (w->stops.size() - n), NPROBES);
    for (size_t i = n; i < w->stops.size(); i++)
        if (w->stops[i] != signo)
            mc::fail("reach", "signal %d reported as %d", signo, w->stops[i]);
    if (pending)
    {
        pending = false;
        deliver(SIGTERM);
    }
}
struct Sig {
    World s;
    Sig() {
        s = World();
        w = &s;
        s.stops.reserve(64);
        s.left = 0;
        s.limit = -1;
        arg_no = 1;
        zh::quiet();
        std::cerr.setstate(std::ios::failbit);
        std::cout.setstate(std::ios::failbit);
        __sanitizer_install_malloc_and_free_hooks(counted, freed);
    }
};
const char *const HEAD = "<?xml version='1.0'?><metaproxy xmlns='http://indexdata.com/metaproxy'"
    " version='1.0'>";
// exit code of the program
int run(const std::vector<std::string> &args)
{
    std::vector<char *> a;
    static char name[] = "metaproxy";
    a.push_back(name);
    std::vector<std::string> keep(args);
    for (auto &s : keep)
        a.push_back(&s[0]);
    a.push_back(0);
    if (setjmp(gone))
        return gone_code;
    mp_main((int) keep.size() + 1, &a[0]);
    return 999;
}
}

// all sequences of options
MC_SCENARIO(pg_opts, 1)
{
    Sig s;
    files["ok.xml"] = files["/x/y/ok.xml"] = files["d/ok.xml"] = std::string(HEAD)
        + "<start route='s'/><routes><route id='s'><filter type='template'/></route>"
        "</routes></metaproxy>";
    files["bad.xml"] = std::string(HEAD) + "<start route='s'/><routes><route id='s'>"
        "<filter type='template'><nonsense/></filter></route></routes></metaproxy>";
    files["broken.xml"] = "<metaproxy>";
    static const char *const opts[][2] = {
        { "-c", "ok.xml" }, { "--config", "/x/y/ok.xml" }, { "-cd/ok.xml", 0 },
        { "-c", "bad.xml" }, { "-c", "broken.xml" }, { "-c", "missing.xml" },
        { "-t", 0 }, { "-D", 0 }, { "-X", 0 }, { "-w", "dir" }, { "-w", "nodir" },
        { "-p", "pidfile" }, { "-u", "user" }, { "-s", "99" }, { "-V", 0 },
        { "-l", "logfile" }, { "-v", "all" }, { "-Z", 0 }, { "--verb", 0 } };
    int n = mc::param("options", 3);
    std::vector<std::string> args;
    std::string conf, dir, pid, user, log, all;
    bool test = false;
    unsigned mode = 0;
    long limit = -1;
    int code = -1;
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(20);
        if (k == 19)
            break;
        args.push_back(opts[k][0]);
        if (opts[k][1])
            args.push_back(opts[k][1]);
        all += std::string(opts[k][0]) + " " + (opts[k][1] ? opts[k][1] : "") + " ";
        if (code >= 0)
            continue;                   // already decided
        switch (k)
        {
        case 0: case 3: case 4: case 5: case 1: conf = opts[k][1]; break;
        case 2: conf = "d/ok.xml"; break;
        case 6: test = true; break;
        case 7: mode = YAZ_DAEMON_FORK | YAZ_DAEMON_KEEPALIVE; break;
        case 8: mode = YAZ_DAEMON_DEBUG; break;
        case 9: dir = "dir"; break;
        case 10: code = 1; break;
        case 11: pid = "pidfile"; break;
        case 12: user = "user"; break;
        case 13: limit = 99; break;
        case 14: code = 0; break;
        case 15: log = "logfile"; break;
        case 17: case 18: code = 1; break;
        }
    }
    bool ends = code >= 0, good = false;
    if (!ends)
    {
        good = conf.find("ok.xml") != std::string::npos;
        code = good ? 0 : 1;
    }
    int got = run(args);
    World &x = s.s;
    mc::evaluated();
    if (got != code)
        mc::fail("exit", "options %s: exit code %d, expected %d", all.c_str(), got, code);
    if (x.dir != dir || x.log != log)
        mc::fail("effect", "options %s: directory '%s', log '%s'", all.c_str(),
                 x.dir.c_str(), x.log.c_str());
    bool runs = good && !test;
    if (x.daemon != runs || (x.starts > 0) != runs || x.starts > 1)
        mc::fail("run", "options %s: %s, %d filters started", all.c_str(),
                 x.daemon ? "runs" : "does not run", x.starts);
    if (good && (x.configured != 1 || x.tested != (test ? 1 : 0)
                 || x.base != (conf[0] == '/' ? "/x/y" : conf[0] == 'd' ? "d" : ".")))
        mc::fail("configure", "options %s: configured %d times, %d as test, files from %s",
                 all.c_str(), x.configured, x.tested, x.base.c_str());
    if (runs && (x.mode != (mode | YAZ_DAEMON_LOG_REOPEN) || x.pidfile != pid
                 || x.user != user || x.limit != limit
                 || x.group != !!(mode & YAZ_DAEMON_FORK)))
        mc::fail("daemon", "options %s: mode %u, pid file '%s', user '%s', limit %ld",
                 all.c_str(), x.mode, x.pidfile.c_str(), x.user.c_str(), x.limit);
    if (x.live)
        mc::fail("left", "options %s: %d filters not destroyed", all.c_str(), x.live);
    mc::outcome(std::to_string(code) + (runs ? "runs" : "") + std::to_string(x.mode));
}

// signals at any time
MC_SCENARIO(pg_stop, 1)
{
    Sig s;
    World &x = s.s;
    int nsig = 1 + mc::choose(mc::param("signals", 2));
    static const int kinds[] = { SIGTERM, SIGUSR1 };
    x.left = nsig;
    for (int i = 0; i < nsig; i++)
        x.sig[i] = kinds[mc::choose(2)];
    bool front = mc::choose(2), debug = mc::choose(2);
    x.child = mc::choose(2);
    files["ok.xml"] = std::string(HEAD)
        + "<start route='s'/><filters><filter id='t' type='template'/></filters>"
        "<routes><route id='s'><filter type='template'>" + (front ? "<front/>" : "")
        + "</filter><filter refid='t'/></route><route id='other'>"
        "<filter type='template'/></route></routes></metaproxy>";
    std::vector<std::string> a = zh::v("-c", "ok.xml", debug ? "-X" : "-D");
    int code = run(a);
    mc::evaluated();
    x.in_handler = false;
    x.left = 0;
    int n = x.delivered[0] + x.delivered[1];
    if (code >= 1000)                   // before the program was ready for it
    {
        mc::outcome("killed");
        return;
    }
    if (code)
        mc::fail("exit", "exit code %d", code);
    if (x.allocs)
        mc::fail("handler", "handling a signal allocates memory (%d times)", x.allocs);
    bool term = (x.delivered[0] && x.sig[0] == SIGTERM)
        || (x.delivered[1] && x.sig[1] == SIGTERM);
    if (x.child)
    {
        if (x.groups_killed || x.stops.size())
            mc::fail("child", "a child process acts on a signal");
    }
    else if (x.groups_killed != term)
        mc::fail("children", "child processes told to end %d times", x.groups_killed);
    mc::outcome(std::to_string(n) + std::to_string(term) + std::to_string(x.stops.size())
                + std::to_string(x.quit));
}

// ---------------------------------------------------------------- configuration
namespace {
struct Kind { const char *type, *attrs; std::vector<const char *> need, may; };
// what the schemas allow
const std::vector<Kind> kinds = {
    { "auth_simple", "", { "<userRegister>example.simple-auth</userRegister>" }, {
        "<targetRegister>example.target-auth</targetRegister>",
        "<discardUnauthorisedTargets/>" } },
    { "backend_test", "", {}, {} },
    { "bounce", "", {}, { "<echo>true</echo>" } },
    { "cgi", "", { "<documentroot>/nowhere</documentroot>" },
      { "<env name='a' value='b'/>", "<map path='/x' exec='/nowhere/y'/>" } },
    { "cql_rpn", "", { "<conversion file='cql2pqf.txt' reverse='true'/>" }, {} },
    { "frontend_net", "", { "<port>@:9000</port>" }, { "<threads>3</threads>",
        "<max-threads>4</max-threads>", "<stack-size>100</stack-size>",
        "<port route='s' max_recv_bytes='1000' port='1'>@:9001</port>",
        "<timeout>3</timeout>", "<connect-max ip='1.*' verbose='1'>3</connect-max>",
        "<connect-total>4</connect-total>", "<http-req-max>5</http-req-max>",
        "<message>m</message>", "<stat-req>/x</stat-req>" } },
    { "http_client", "", {}, { "<default-host>http://h</default-host>",
        "<max-redirects>3</max-redirects>", "<proxy>p:1</proxy>",
        "<x-forwarded-for>true</x-forwarded-for>", "<bind_host>1</bind_host>" } },
    { "http_file", "", {}, {
        "<area><documentroot>.</documentroot><prefix>/p</prefix></area>",
        "<area><documentroot>.</documentroot><prefix>/q</prefix><raw>1</raw>"
        "<passthru>true</passthru></area>" } },
    { "http_rewrite", "", {}, {
        "<request verbose='1'><rule name='r'><rewrite from='a' to='b'/></rule>"
        "<content type='headers'><within header='h' rule='r'/></content></request>",
        "<response verbose='0'><rule name='r'><rewrite from='a' to='b'/></rule>"
        "<content type='html' mime='text/html'><within tag='a' attr='href' rule='r'/>"
        "</content></response>" } },
    { "http_rewrite1", "", {}, { "<replace pattern='a' replacement='b' mode='.'"
        " content-type='text/html'/>", "<replace pattern='c'/>" } },
    { "limit", "", {}, { "<limit bandwidth='1' pdu='2' search='3' retrieve='4'/>" } },
    { "load_balance", "", {}, {} },
    { "log", "", {}, { "<message>m</message>", "<time-format>%H</time-format>",
        "<category user-access='true' access='false' apdu='0' line='1'/>" } },
    { "multi", "", {}, { "<target route='s' auth='a/b'>t</target>",
        "<target route='s'>u</target>", "<hideunavailable/>", "<hideerrors/>",
        "<mergetype>serveorder</mergetype>" } },
    { "present_chunk", "", {}, { "<chunk>3</chunk>" } },
    { "query_rewrite", "", {}, { "<xslt stylesheet='pqf2pqf.xsl'/>",
        "<charset from='utf-8' to='marc-8'/>" } },
    { "record_transform", "", { "<retrievalinfo><retrieval syntax='xml' name='F'/>"
        "<retrieval syntax='usmarc'/></retrievalinfo>" }, {} },
    { "sd_remove", "", {}, {} },
    { "session_shared", "", {}, {
        "<resultset max='3' ttl='4' optimizesearch='true' restart='false'/>",
        "<session ttl='3' max='4'/>",
        "<init preferred-message-size='10' maximum-record-size='20' ignore-auth='1'/>" } },
    { "sort", "", { "<sort prefetch='3' xpath='/a' namespaces='p=http://x' "
        "ascending='true' debug='false'/>" }, {} },
    { "sru_z3950", "", {}, { "<stylesheet>x.xsl</stylesheet>",
        "<database name='d'><explain xmlns='http://explain.z3950.org/dtd/2.0/'/>"
        "</database>", "<limit retrieve='3'/>" } },
    { "virt_db", "", {}, { "<pass-vhosts>true</pass-vhosts>",
        "<virtual><database>d</database><target>t</target></virtual>",
        "<virtual route='s'><database>e</database><target>t</target><target>u</target>"
        "</virtual>" } },
    { "z3950_client", "", {}, { "<connect-timeout>3</connect-timeout>",
        "<init-timeout>3</init-timeout>", "<max-sockets-timeout>3</max-sockets-timeout>",
        "<timeout>3</timeout>", "<default_target>h:1</default_target>",
        "<force_target>h:1</force_target>", "<force_close>true</force_close>",
        "<max-sockets>3</max-sockets>", "<client_ip>true</client_ip>",
        "<charset>utf-8</charset>", "<bind_host>1</bind_host>" } },
    { "zoom", "", {}, { "<torus url='http://x/' allow_ip='1.*' realm='r' proxy='p'/>",
        "<torus><records><record><udb>d</udb><cclmap_au>1=1003</cclmap_au>"
        "<zurl>h:1/d</zurl></record></records></torus>" } } };

// places where an element can be added: right after each start tag, and before each
// end tag of an element that has elements; 0 is the filter itself
std::vector<size_t> places(const std::string &x)
{
    std::vector<size_t> v;
    v.push_back(0);
    int depth = 0;
    static const char *const open[] = { "<database name", "<records>", "<retrievalinfo" };
    for (const char *o : open)          // not checked by the filter itself
        if (x.find(o) != std::string::npos)
            return v;
    for (size_t i = 0; i < x.size(); i++)
        if (x[i] == '<' && x[i + 1] != '/')
        {
            size_t e = x.find('>', i);
            if (x[e - 1] == '/')
            {
                if (!depth)
                    v.push_back(e + 1);
                continue;
            }
            depth++;
            if (x[e + 1] == '<')
                v.push_back(e + 1);
        }
        else if (x[i] == '<')
        {
            depth--;
            v.push_back(x.find('>', i) + 1);
        }
    return v;
}
}

MC_SCENARIO(pg_conf, 1)
{
    Sig s;
    int k = mc::choose((int) kinds.size() + 1), el = mc::param("elements", 2);
    static const char *const repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
    std::string name = std::string(repo) + "/etc/c.xml", body, type = "nonsense";
    bool good = k < (int) kinds.size();
    if (good)
    {
        const Kind &f = kinds[k];
        type = f.type;
        for (auto &x : f.need)
            body += x;
        // any subset of the optional elements, of up to that many
        int from = 0;
        for (int i = 0; i < el && from < (int) f.may.size(); i++)
        {
            int c = mc::choose((int) f.may.size() - from + 1);
            if (c == 0)
                break;
            from += c;
            body += f.may[from - 1];
        }
        int bad = mc::choose(4);        // 0: as it is
        if (bad == 1)
        {
            std::vector<size_t> p = places(body);
            if (type == "record_transform")
            {
                mc::vacuous();
                return;
            }
            body.insert(p[mc::choose((int) p.size())], "<bogus/>");
            good = false;
        }
        else if (bad == 2)
        {
            // an unknown attribute
            std::vector<size_t> p;
            for (size_t i = 0; i + 1 < body.size(); i++)
                if (body[i] == '<' && body[i + 1] != '/'
                    && (body.find('=', i) < body.find('>', i)
                        || body.compare(i, 5, "<port") == 0)
                    && body.compare(i, 8, "<explain"))
                    p.push_back(body.find_first_of(" />", i));
            if (p.empty())
            {
                mc::vacuous();
                return;
            }
            body.insert(p[mc::choose((int) p.size())], " bogus='1'");
            good = false;
        }
        else if (bad == 3)
        {
            if (f.need.empty() || type == "cgi" || type == "frontend_net"
                || type == "auth_simple")
            {
                mc::vacuous();
                return;
            }
            body.erase(0, strlen(f.need[0]));
            good = false;
        }
    }
    files[name] = std::string(HEAD) + "<start route='s'/><routes><route id='s'>"
        "<filter type='" + type + "'>" + body + "</filter></route></routes></metaproxy>";
    int code = run({ "-t", "-c", name });
    mc::evaluated();
    if (code != (good ? 0 : 1))
    {
        mc::fail(good ? "refused" : "accepted", "%s: %s", type.c_str(), body.c_str());
    }
    if (s.s.daemon)
        mc::fail("run", "configuration test runs the program");
    mc::outcome(type + std::to_string(good));
}

// the configurations that come with the program
MC_SCENARIO(pg_etc, 1)
{
    Sig s;
    static const char *const repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
    std::string dir = std::string(repo) + "/etc/";
    std::set<std::string> all;
    if (DIR *d = opendir(dir.c_str()))
    {
        while (struct dirent *e = readdir(d))
            if (!strncmp(e->d_name, "config", 6) && strstr(e->d_name, ".xml")
                && !strstr(e->d_name, ".xml.")
                && strcmp(e->d_name, "config-zoom.xml"))  // needs files from elsewhere
                all.insert(dir + e->d_name);
        closedir(d);
    }
    if (all.empty())
        mc::fail("harness:etc", "no configurations in %s", dir.c_str());
    int k = mc::choose((int) all.size());
    s.s.real = true;
    auto it = all.begin();
    std::advance(it, k);
    int code = run({ "-t", "-c", *it });
    mc::evaluated();
    if (code)
        mc::fail("refused", "%s", it->c_str());
    mc::outcome(*it);
}
