// The log filter.
// ONLY: filter_log package session origin filter util xmlutil router_chain gduutil
#include "msgs.hpp"
#include "filter_log.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <yaz/diagbib1.h>
#include <yaz/sortspec.h>
#include <regex>
#include <set>
#include <dlfcn.h>

extern "C" { extern struct metaproxy_1_filter_struct metaproxy_1_filter_log; }

static int file_fd = -1;
static std::string file_name()          // in memory, one per process
{
    static int pid;
    static std::string n;
    if (pid != getpid())
    {
        pid = getpid();
        int f = memfd_create("log", 0);
        file_fd = dup2(f, 600);
        close(f);
        n = "/proc/" + std::to_string(pid) + "/fd/600";
    }
    return n;
}
static std::string content()
{
    fflush(0);
    std::string s(lseek(file_fd, 0, SEEK_END), 0);
    if (pread(file_fd, &s[0], s.size(), 0) != (ssize_t) s.size())
        mc::fail("harness:file", "cannot read log");
    return s;
}
static std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size(); )
    {
        size_t j = s.find('\n', i);
        if (j == std::string::npos)
            mc::fail("partial-line", "log ends with '%.80s'", s.c_str() + i);
        v.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return v;
}
static const char *const cats[] = { "access", "user-access", "request-apdu", "response-apdu",
    "request-session", "response-session", "init-options", "line" };
static const char *proto(const Z_GDU *g)
{
    return g->which == Z_GDU_Z3950 ? "Z3950" : g->which == Z_GDU_HTTP_Request
        ? "HTTP_Request" : "HTTP_Response";
}

static std::string conf(unsigned on, const std::string &file, const char *msg)
{
    std::string x = "<f xmlns='http://indexdata.com/metaproxy'>";
    if (msg)
        x += "<message>" + std::string(msg) + "</message>";
    if (file.size())
        x += "<filename>" + file + "</filename><time-format>T</time-format>";
    x += "<category";
    for (int i = 0; i < 8; i++)
        x += std::string(" ") + cats[i] + "='" + (on >> i & 1 ? "true" : "false") + "'";
    return x + "/></f>";
}

// one request and its response, of all kinds
MC_SCENARIO(lg_one, 0)
{
    zh::quiet();
    int c = mc::choose(10), rq = mc::choose(NREQ), rs = mc::choose(NRES);
    unsigned on = c < 8 ? 1u << c : c == 8 ? 255 : 0;
    ODR o = odr_createmem(ODR_ENCODE);
    std::string wq, ws, user = "-";
    Z_GDU *q = request(o, rq, wq), *s = response(o, rs, ws);
    bool again = rq >= 29 && rq <= 31;          // after an Init with that user
    if (!q || (!s && rs != 25 + 2 * NRECS))
    {
        odr_destroy(o);
        mc::vacuous();
        return;
    }
    std::unique_ptr<yf::Base> f(metaproxy_1_filter_log.creator());
    std::string x = conf(on, file_name(), "MSG"), err;
    if (!zh::configure_ok(*f, x, &err))
        mc::fail("harness:configuration", "%s", err.c_str());
    ftruncate(file_fd, 0);
    std::string seen;
    zh::Fn next;
    size_t pre = 0;
    bool answer = true;
    next.f = [&](mp::Package &p) {
        seen = bytes(p.request().get());
        if (answer)
        {
            pre = content().size();
            if (s)
                p.response() = s;
        }
    };
    zh::Routes r;
    r.r[""].push_back(f.get());
    r.r[""].push_back(&next);
    std::string res;
    unsigned long id;
    {
        zh::Client cl(r, "1.2.3.4 @:9000");
        id = cl.session.id();
        if (again)
        {
            std::string w;
            answer = false;
            ODR i = odr_createmem(ODR_ENCODE);
            cl.send(request(i, 25, w));
            odr_destroy(i);
            answer = true;
            user = "user";
            content();
            ftruncate(file_fd, 0);
        }
        cl.send(q, [&](mp::Package &p) { res = bytes(p.response().get()); });
    }
    if (rq == 25)
        user = "user";
    if (rq == 26)
        user = "u2/p";
    yazpp_1::GDU q2(q), s2(s);
    if (seen != bytes(q2.get()))
        mc::fail("request", "%s: the request is passed on changed", x.c_str());
    if (res != (s ? bytes(s2.get()) : ""))
        mc::fail("response", "request %d: response %d (%s, %zu bytes) is passed back changed (%s, %zu)", rq, rs, ws.c_str(), bytes(s2.get()).size(), zh::desc(res).c_str(), res.size());
    std::string all = content(), before = all.substr(0, pre), after = all.substr(pre);
    bool apdu = on & 12;
    std::vector<std::string> lb, la;
    auto count = [&](int k, bool resp) -> int {        // lines wanted
        if (!(on >> k & 1))
            return 0;
        switch (k)
        {
        case 0: case 1: return resp ? s != 0 : 1;
        case 4: return resp ? 0 : 1;
        case 5: return resp ? 1 : 0;
        case 6: return resp ? s && s->which == Z_GDU_Z3950
                && s->u.z3950->which == Z_APDU_initResponse
                : q->which == Z_GDU_Z3950 && q->u.z3950->which == Z_APDU_initRequest;
        case 7: return resp ? 1 : 0;
        }
        return 0; };
    for (int k = 0; k < 2; k++)
    {
        const std::string &t = k ? after : before;
        if (apdu)
        {
            // a dump, of several lines, where there is something to dump
            bool want = on >> (k ? 3 : 2) & 1 && (k ? s : q);
            if (c < 8 && want != (t.size() > 0))
                mc::fail("dump", "%s: %zu bytes of %s", x.c_str(), t.size(),
                         k ? "response" : "request");
            if (want && t[t.size() - 1] != '\n')
                mc::fail("partial-line", "%s: dump ends in the middle of a line",
                         x.c_str());
            if (c < 8)
                continue;
        }
        std::vector<std::string> l;
        for (auto &n : lines(t))
            if (!n.compare(0, 5, "T MSG"))
                l.push_back(n);
            else if (!apdu)
                mc::fail("line-start", "line '%.100s'", n.c_str());
        size_t n = 0;
        for (int i = 0; i < 8; i++)
            n += count(i, k);
        if (l.size() != n && !(on & 128 && q->which == Z_GDU_HTTP_Response))
            mc::fail("entries", "%s: %zu lines for a %s, not %zu: %.200s", x.c_str(),
                     l.size(), k ? "response" : "request", n, t.c_str());
        if (!(on & 3) || !(k ? s : q))
            continue;
        std::string who = on & 1 ? "" : user + " ";
        std::string head = "T MSG " + who + "1.2.3.4:" + std::to_string(id) + " "
            + std::to_string(id) + " ";
        std::string tail = std::string(" ") + proto(k ? s : q);
        std::string w = k ? ws : wq;
        if (w.size())
            tail += " " + w;
        const std::string &g = l[k && on & 128 ? 1 : 0];
        size_t e = head.size();
        while (e < g.size() && (isdigit(g[e]) || g[e] == '.'))
            e++;
        if (g.compare(0, head.size(), head) || e == head.size()
            || g.compare(e, tail.size(), tail))
            mc::fail("access-line", "%s: '%s', not '%s..%s..'", cats[c < 8 ? c : 0], g.c_str(),
                     head.c_str(), tail.c_str());
    }
    odr_destroy(o);
    mc::evaluated();
    mc::outcome(std::to_string(c) + " " + std::regex_replace(all.substr(0, 60),
                std::regex("[0-9]+"), "#"));
    mc::state(std::to_string(c) + "," + std::to_string(rq) + "," + std::to_string(rs));
}

// every write is a point where another thread may go on
template <class F> static F real(F, const char *name)
{
    static F f = (F) dlsym(RTLD_NEXT, name);
    return f;
}
static bool track;
extern "C" int fputs(const char *s, FILE *f)
{
    if (track)
        mc::point("fputs");
    return real(&fputs, "fputs")(s, f);
}
extern "C" int fputc(int c, FILE *f)
{
    if (track)
        mc::point("fputc");
    return real(&fputc, "fputc")(c, f);
}
extern "C" size_t fwrite(const void *b, size_t n, size_t m, FILE *f)
{
    if (track)
        mc::point("fwrite");
    static auto r = (size_t (*)(const void *, size_t, size_t, FILE *))
        dlsym(RTLD_NEXT, "fwrite");
    return r(b, n, m, f);
}

// what differs between runs
static std::string norm(const std::string &s, unsigned long id)
{
    static const std::regex t("\\b\\d+\\.\\d{6}\\b"), u("Id: \\d+");
    std::string r = std::regex_replace(s, t, "E"), k = std::to_string(id);
    r = std::regex_replace(r, std::regex(":" + k + " " + k + " "), ":N N ");
    return std::regex_replace(r, std::regex("id=" + k + " "), "id=N ");
}

// sessions of several clients, through one filter or two with the same file
MC_SCENARIO(lg_mt, 0)
{
    zh::quiet();
    int two = mc::choose(2), apdu = mc::choose(2), nops = mc::param("ops", 2);
    std::unique_ptr<yf::Base> f[2];
    std::string err, x = conf(apdu ? 12 : 2 | 128 | 48, file_name(), "M");
    for (int i = 0; i <= two; i++)
    {
        f[i].reset(metaproxy_1_filter_log.creator());
        if (!zh::configure_ok(*f[i], x, &err))
            mc::fail("harness:configuration", "%s", err.c_str());
    }
    zh::Fn next;
    bool marks = false;
    size_t mark = 0;
    next.f = [&](mp::Package &p) {
        mp::odr o;
        Z_GDU *g = p.request().get();
        if (marks)
            mark = content().size();
        if (!g || g->which != Z_GDU_Z3950)
            return;
        Z_APDU *a = g->u.z3950;
        if (a->which == Z_APDU_initRequest)
            p.response() = o.create_initResponse(a, 0, 0);
        else
            p.response() = o.create_searchResponse(a, 0, 0);
    };
    zh::Routes r[2];
    for (int i = 0; i < 2; i++)
    {
        r[i].r[""].push_back(f[i & two].get());
        r[i].r[""].push_back(&next);
    }
    auto client = [&](int i, const std::function<void(unsigned long)> &after) {
        zh::Client c(r[i]);
        ODR o = odr_createmem(ODR_ENCODE);
        for (int n = 0; n < nops; n++)
        {
            if (n == 0)
                c.send(zh::init_req(o, "", "", i ? "bob" : "al", "p"));
            else
                c.send(zh::search_req(o, i ? "elephant" : "mouse", "s", zh::v("db")));
            if (after)
                after(c.session.id());
        }
        odr_destroy(o);
        c.close();
        if (after)
            after(c.session.id());
        return (unsigned long) c.session.id(); };
    // alone
    std::vector<std::string> want[2];
    for (int i = 0; i < 2; i++)
    {
        marks = true;
        client(i, [&](unsigned long id) {
            std::string s = content();
            for (int k = 0; k < 2; k++)
            {
                std::string b = k ? s.substr(mark) : s.substr(0, mark);
                if (apdu && b.size())
                    want[i].push_back(norm(b, id));
                else
                    for (auto &l : lines(b))
                        want[i].push_back(norm(l + "\n", id));
            }
            ftruncate(file_fd, 0);
        });
        marks = false;
    }
    // together
    unsigned long id[2];
    mc::sched_begin();
    track = true;
    {
        std::vector<int> th;
        for (int i = 0; i < 2; i++)
            th.push_back(mc::spawn([&, i]() {
                unsigned long k = client(i, nullptr);
                mc::NoRace q;
                id[i] = k; }));
        for (int t : th)
            mc::join(t);
    }
    track = false;
    mc::sched_end();
    std::string all = content();
    ftruncate(file_fd, 0);
    for (int i = 0; i < 2; i++)
        all = norm(all, id[i]);
    // the log must consist of the entries of both in their order
    std::set<std::pair<size_t, size_t> > bad;
    std::function<bool(size_t, size_t, size_t)> fits = [&](size_t a, size_t b, size_t p) {
        if (p == all.size())
            return a == want[0].size() && b == want[1].size();
        if (bad.count({ a, b }))
            return false;
        if (a < want[0].size() && !all.compare(p, want[0][a].size(), want[0][a])
            && fits(a + 1, b, p + want[0][a].size()))
            return true;
        if (b < want[1].size() && !all.compare(p, want[1][b].size(), want[1][b])
            && fits(a, b + 1, p + want[1][b].size()))
            return true;
        bad.insert({ a, b });
        return false; };
    if (want[0].empty() || !fits(0, 0, 0))
        mc::fail("mixed", "the log is not made of whole entries: %s", all.c_str());
    mc::evaluated();
    mc::outcome(std::to_string(std::hash<std::string>()(all) % 1000));
    mc::state(all + std::to_string(two));
}
