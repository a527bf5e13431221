// Sessions: identity, equality/ordering, close; session_map.
// ONLY: session
#include "mc.hpp"
#include <metaproxy/session.hpp>
#include <vector>
#include <algorithm>
#include <map>
#include <set>
#include <memory>
#include <stdio.h>
#include <string.h>
#include <dlfcn.h>
#include <link.h>

namespace mp = metaproxy_1;

// threads create, copy and close sessions concurrently
MC_SCENARIO(sess_ids, 1)
{
    int nt = mc::param("threads", 3), per = mc::param("per", 2);
    int dup = mc::param("copies", 1);
    std::vector<std::vector<unsigned long> > ids(nt);
    mc::sched_begin();
    std::vector<int> t;
    for (int i = 0; i < nt; i++)
        t.push_back(mc::spawn([&ids, i, per, dup]() {
            for (int j = 0; j < per; j++)
            {
                mp::Session s;
                if (s.is_closed())
                    mc::fail("new-session-closed", "a new session is closed");
                if (dup)
                {
                    mp::Session c(s);
                    if (c.id() != s.id() || !(c == s) || c < s || s < c)
                        mc::fail("copy-id", "copy of session %lu has id %lu",
                                 s.id(), c.id());
                }
                mc::NoRace nr;
                ids[i].push_back(s.id());
            }
        }));
    for (int i = 0; i < nt; i++)
        mc::join(t[i]);
    mc::sched_end();
    std::set<unsigned long> all;
    std::string o;
    for (int i = 0; i < nt; i++)
        for (size_t j = 0; j < ids[i].size(); j++)
        {
            char b[40];
            snprintf(b, sizeof b, " %d:%lu", i, ids[i][j]);
            o += b;
            if (!all.insert(ids[i][j]).second)
                mc::fail("dup-id", "two sessions share id %lu:%s", ids[i][j],
                         o.c_str());
        }
    mc::evaluated(all.size());
    mc::outcome(o);
    mc::state(o);
}

// every sequence of operations on a pool of session objects, against a model
struct MS { unsigned long id; bool closed; };
MC_SCENARIO(sess_ops, 0)
{
    const int N = 3;
    int depth = mc::param("depth", 4);
    std::unique_ptr<mp::Session> s[N];
    MS m[N];
    std::set<unsigned long> used;
    for (int i = 0; i < N; i++)
    {
        s[i].reset(new mp::Session);
        m[i].id = s[i]->id();
        m[i].closed = false;
        if (!used.insert(m[i].id).second)
            mc::fail("dup-id", "id %lu given twice", m[i].id);
    }
    std::string tr;
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(5);
        int i = mc::choose(N), j = op == 1 || op == 2 ? mc::choose(N) : 0;
        char b[40];
        snprintf(b, sizeof b, " %d(%d,%d)", op, i, j);
        tr += b;
        switch (op)
        {
        case 0: // new
            s[i].reset(new mp::Session);
            m[i].id = s[i]->id();
            m[i].closed = false;
            if (!used.insert(m[i].id).second)
                mc::fail("dup-id", "id %lu given twice after%s", m[i].id,
                         tr.c_str());
            break;
        case 1: // copy construct
        {
            mp::Session *n = new mp::Session(*s[j]);
            m[i] = m[j];
            s[i].reset(n);
            break;
        }
        case 2: // assign
            *s[i] = *s[j];
            m[i] = m[j];
            break;
        case 3:
            s[i]->close();
            m[i].closed = true;
            break;
        case 4: // stop
            d = depth;
            break;
        }
        std::string st;
        for (int x = 0; x < N; x++)
        {
            if (s[x]->id() != m[x].id)
                mc::fail("id-changed", "session %d has id %lu, expected %lu "
                         "after%s", x, s[x]->id(), m[x].id, tr.c_str());
            if (s[x]->is_closed() != m[x].closed)
                mc::fail("closed-state", "session %d is_closed()=%d, expected"
                         " %d after%s", x, s[x]->is_closed(), m[x].closed,
                         tr.c_str());
            for (int y = 0; y < N; y++)
            {
                if ((*s[x] == *s[y]) != (m[x].id == m[y].id))
                    mc::fail("equality", "session %d == %d wrong after%s", x,
                             y, tr.c_str());
                bool lt = *s[x] < *s[y], gt = *s[y] < *s[x];
                if ((m[x].id == m[y].id) != (!lt && !gt) || (lt && gt))
                    mc::fail("ordering", "order of %d and %d does not agree "
                             "with identity after%s", x, y, tr.c_str());
                st += m[x].id == m[y].id ? 'e' : 'n';
            }
            st += m[x].closed ? 'C' : 'O';
        }
        mc::evaluated();
        mc::state(st);
        if (op == 4)
            mc::outcome(st);
    }
    std::string st;
    for (int x = 0; x < N; x++)
        for (int y = 0; y < N; y++)
            st += m[x].id == m[y].id ? 'e' : 'n';
    mc::outcome(st);
}

// per-session data map: sequential histories
MC_SCENARIO(sess_map_ops, 0)
{
    const int N = 2;
    int depth = mc::param("depth", 5);
    mp::Session s[N];
    mp::session_map<int> map;
    bool in[N] = { false, false };
    std::string tr;
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(3), i = mc::choose(N), cl = mc::choose(2);
        mp::Session k(s[i]);
        if (cl)
            k.close();      // a closed copy still designates the session
        int v = d;
        if (op == 0)
        {
            map.create(v, k);
            in[i] = true;
        }
        else if (op == 1)
        {
            map.release(k);
            in[i] = false;
        }
        tr += "cre"[op];
        tr += '0' + i;
        for (int x = 0; x < N; x++)
            if (map.exist(s[x]) != in[x])
                mc::fail("map-exist", "exist(%d)=%d after %s", x, !in[x],
                         tr.c_str());
        mc::evaluated();
        mc::state(std::string(in[0] ? "1" : "0") + (in[1] ? "1" : "0"));
    }
    mc::outcome(tr);
}

// concurrent use by several threads, each with its own session and one shared
MC_SCENARIO(sess_map_mt, 1)
{
    static mp::session_map<int> map;
    mp::Session shared, own[3];
    int nt = mc::param("threads", 2);
    int v0 = 1;
    map.create(v0, shared);
    std::string log;
    mc::sched_begin();
    std::vector<int> t;
    for (int i = 0; i < nt; i++)
        t.push_back(mc::spawn([&, i]() {
            int v = i;
            map.create(v, own[i]);
            if (!map.exist(own[i]))
                mc::fail("map-lost", "own session vanished");
            bool e = map.exist(shared);
            if (i == 0)
                map.release(shared);
            map.release(own[i]);
            if (map.exist(own[i]))
                mc::fail("map-kept", "own session still there");
            mc::NoRace nr;
            log += char('a' + i);
            log += e ? '1' : '0';
        }));
    for (int i = 0; i < nt; i++)
        mc::join(t[i]);
    mc::sched_end();
    if (map.exist(shared))
        mc::fail("map-kept", "released session still there");
    mc::evaluated();
    mc::outcome(log);
    mc::state(log);
}


// a long-running proxy: ids stay unique over very many sessions
MC_SCENARIO(sess_many, 1)
{
    unsigned long n = 1UL << mc::param("log2", 22);
    std::vector<unsigned long> v;
    v.reserve(n);
    for (unsigned long i = 0; i < n; i++)
    {
        mp::Session s;
        v.push_back(s.id());
    }
    std::sort(v.begin(), v.end());
    for (unsigned long i = 1; i < n; i++)
        if (v[i] == v[i - 1])
            mc::fail("dup-id", "id %lu given twice within %lu sessions", v[i], n);
    mc::evaluated(n);
    mc::state("many");
    mc::outcome("unique");
}

// ... and over more sessions than can be made here: the counter is put where
// it would be after that many
MC_SCENARIO(sess_jump, 0)
{
    static const int bits[] = { 8, 15, 16, 24, 31, 32, 33, 48, 63 };
    int b = bits[mc::choose(9)], before = 1 + mc::choose(6);
    Dl_info di;
    ElfW(Sym) *sym = 0;
    void *p = dlsym(RTLD_DEFAULT, "_ZN11metaproxy_17Session11m_global_idE");
    if (!p || !dladdr1(p, &di, (void **) &sym, RTLD_DL_SYMENT) || !sym
        || di.dli_saddr != p || sym->st_size > 8)
    {
        mc::vacuous();
        return;
    }
    unsigned sz = sym->st_size;
    std::vector<mp::Session> s(5);
    unsigned long n = 0;
    memcpy(&n, p, sz);
    unsigned long to = (1UL << b) - before;
    if (n != s[4].id() || to <= n || (sz < 8 && to >> (8 * sz)))
    {
        mc::vacuous();          // not a plain counter of the last identifier
        return;
    }
    memcpy(p, &to, sz);
    for (int i = 0; i < 12; i++)
    {
        mp::Session x;
        s.push_back(x);
        if (!(s.back() == x) || s.back().id() != x.id())
            mc::fail("copy-id", "copy of session %lu has id %lu", x.id(),
                     s.back().id());
    }
    mp::session_map<int> map;
    for (size_t i = 0; i < s.size(); i++)
    {
        int v = i;
        for (size_t j = 0; j < i; j++)
            if (s[i].id() == s[j].id() || s[i] == s[j])
                mc::fail("dup-id", "sessions %d and %d of those made around "
                         "2^%d are the same (%lu, %lu)", (int) j, (int) i, b,
                         s[j].id(), s[i].id());
            else if ((s[i] < s[j]) == (s[j] < s[i]))
                mc::fail("ordering", "sessions %lu and %lu are not ordered",
                         s[i].id(), s[j].id());
            else
                for (size_t k = 0; k < j; k++)
                    if ((s[i] < s[j]) == (s[j] < s[k]) &&
                        (s[i] < s[j]) != (s[i] < s[k]))
                        mc::fail("ordering", "sessions %lu, %lu and %lu are "
                                 "not ordered", s[i].id(), s[j].id(), s[k].id());
        if (map.exist(s[i]))
            mc::fail("map-exist", "session %lu has data before it is given any",
                     s[i].id());
        map.create(v, s[i]);
    }
    for (size_t i = 0; i < s.size(); i++)
    {
        map.release(s[i]);
        for (size_t j = 0; j < s.size(); j++)
            if (map.exist(s[j]) != (j > i))
                mc::fail("map-exist", "session %lu: data %s", s[j].id(),
                         j > i ? "lost" : "kept");
    }
    memcpy(p, &n, sz);
    mc::evaluated();
    mc::state("bit" + std::to_string(b) + "-" + std::to_string(before));
    mc::outcome("bit" + std::to_string(b));
}
