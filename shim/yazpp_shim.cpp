// YAZ++ stand-in.  Behaviour follows YAZ++ 1.7 (z-assoc.cpp, pdu-assoc.cpp,
// socket-manager.cpp, ...), with the COMSTACK replaced by vnet::Conn.
#include "vnet.hpp"
#include "../mc/mc.hpp"
#include <yazpp/socket-manager.h>
#include <yazpp/z-assoc.h>
#include <yazpp/gdu.h>
#include <yazpp/z-query.h>
#include <yazpp/cql2rpn.h>
#include <yazpp/record-cache.h>
#include <yazpp/timestat.h>
#include <yazpp/limit-connect.h>
#include <yaz/pquery.h>
#include <yaz/copy_types.h>
#include <yaz/oid_util.h>
#include <yaz/log.h>
#include <list>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <poll.h>

using namespace yazpp_1;

// ------------------------------------------------------------------- vnet
namespace vnet {
    std::function<int(Conn *)> on_connect;
    std::function<void(Conn *)> on_output;
    std::function<bool()> on_idle;
    std::function<void(Conn *)> on_close;
    std::vector<Conn *> conns;
    std::vector<Listener *> listeners;

    static Conn *mk()
    {
        Conn *c = new Conn;
        c->id = (int) conns.size();
        conns.push_back(c);
        return c;
    }
    Listener *find_listener(const std::string &addr)
    {
        for (size_t i = 0; i < listeners.size(); i++)
            if (listeners[i]->addr == addr && listeners[i]->open)
                return listeners[i];
        return 0;
    }
    Conn *dial(const std::string &addr, const std::string &peer)
    {
        Listener *l = find_listener(addr);
        if (!l)
            return 0;
        Conn *c = mk();
        c->peer = peer;
        c->host = addr;
        mc::hb_release(&conns);
        l->backlog.push_back(c);
        return c;
    }
    void send(Conn *c, const std::string &bytes)
    {
        mc::hb_release(&conns);
        if (!c->local_closed)
            c->in.push_back(bytes);
    }
    void send(Conn *c, Z_GDU *g) { send(c, encode(g)); }
    void send(Conn *c, Z_APDU *a) { send(c, encode(a)); }
    void remote_close(Conn *c)
    {
        mc::hb_release(&conns);
        c->in_eof = true;
    }
    std::string encode(Z_GDU *g)
    {
        ODR o = odr_createmem(ODR_ENCODE);
        std::string r;
        if (z_GDU(o, &g, 0, 0))
        {
            int len;
            char *b = odr_getbuf(o, &len, 0);
            r.assign(b, len);
        }
        odr_destroy(o);
        return r;
    }
    std::string encode(Z_APDU *a)
    {
        Z_GDU g;
        g.which = Z_GDU_Z3950;
        g.u.z3950 = a;
        return encode(&g);
    }
    Z_GDU *decode(const std::string &s, ODR o)
    {
        Z_GDU *g = 0;
        odr_setbuf(o, (char *) s.data(), (int) s.size(), 0);
        if (!z_GDU(o, &g, 0, 0))
            return 0;
        return g;
    }
    void reset()
    {
        for (size_t i = 0; i < conns.size(); i++)
            delete conns[i];
        for (size_t i = 0; i < listeners.size(); i++)
            delete listeners[i];
        conns.clear();
        listeners.clear();
        on_connect = nullptr;
        on_output = nullptr;
        on_idle = nullptr;
        on_close = nullptr;
    }
}

// ---------------------------------------------------------------- PDU_Assoc
class PDU_Assoc::PARep {
public:
    enum State { Connecting, Listen, Ready, Closed, Writing } state;
    ISocketObservable *so;
    IPDU_Observer *obs;
    vnet::Conn *conn;
    vnet::Listener *lst;
    std::deque<std::string> q;
    bool dead;
    int idle;
    int *destroyed;
    PDU_Assoc *parent;
    std::list<PDU_Assoc *> children;
    std::string peer;
    PARep() : state(Closed), so(0), obs(0), conn(0), lst(0), dead(false),
            idle(0), destroyed(0), parent(0) {}
};

class SocketManager::SMRep {
public:
    struct Entry {
        ISocketObserver *o;
        int fd;
        int mask;
        int timeout;
        int64_t last;
    };
    std::list<Entry> ent;
    std::deque<std::pair<ISocketObserver *, int> > ev;
};

static int conn_ready(PDU_Assoc::PARep *p, int mask)
{
    int e = 0;
    switch (p->state)
    {
    case PDU_Assoc::PARep::Listen:
        if (p->lst && !p->lst->backlog.empty())
            e |= SOCKET_OBSERVE_READ;
        break;
    case PDU_Assoc::PARep::Connecting:
        if (p->conn && p->conn->connect == 1)
            e |= SOCKET_OBSERVE_WRITE;
        else if (p->conn && p->conn->connect == -1)
            e |= SOCKET_OBSERVE_WRITE | SOCKET_OBSERVE_READ;
        break;
    case PDU_Assoc::PARep::Ready:
    case PDU_Assoc::PARep::Writing:
        if (p->conn && (!p->conn->in.empty() || p->conn->in_eof))
            e |= SOCKET_OBSERVE_READ;
        if (p->conn && !p->q.empty() && !p->conn->write_blocked)
            e |= SOCKET_OBSERVE_WRITE;
        break;
    default:
        break;
    }
    return e & mask;
}

static int ready(SocketManager::SMRep::Entry &e)
{
    if (e.fd >= 0)
    {
        if (!(e.mask & SOCKET_OBSERVE_READ))
            return 0;
        struct pollfd p;
        p.fd = e.fd;
        p.events = POLLIN;
        p.revents = 0;
        if (::poll(&p, 1, 0) > 0 && (p.revents & POLLIN))
            return SOCKET_OBSERVE_READ;
        return 0;
    }
    // conn observers are registered with fd == -2
    return -1;
}

SocketManager::SocketManager() : m_p(new SMRep) {}
SocketManager::~SocketManager() { deleteObservers(); delete m_p; }

void SocketManager::addObserver(int fd, ISocketObserver *o)
{
    for (auto &e : m_p->ent)
        if (e.o == o)
        {
            e.fd = fd;
            return;
        }
    SMRep::Entry e;
    e.o = o;
    e.fd = fd;
    e.mask = 0;
    e.timeout = -1;
    e.last = mc::now_ms();
    m_p->ent.push_front(e);
}
void SocketManager::deleteObserver(ISocketObserver *o)
{
    for (auto it = m_p->ev.begin(); it != m_p->ev.end(); )
        if (it->first == o)
            it = m_p->ev.erase(it);
        else
            ++it;
    for (auto it = m_p->ent.begin(); it != m_p->ent.end(); ++it)
        if (it->o == o)
        {
            m_p->ent.erase(it);
            return;
        }
}
void SocketManager::deleteObservers()
{
    m_p->ev.clear();
    m_p->ent.clear();
}
void SocketManager::maskObserver(ISocketObserver *o, int mask)
{
    for (auto &e : m_p->ent)
        if (e.o == o)
        {
            e.mask = mask;
            e.last = mc::now_ms();
        }
}
void SocketManager::timeoutObserver(ISocketObserver *o, int timeout)
{
    for (auto &e : m_p->ent)
        if (e.o == o)
        {
            e.timeout = timeout;
            e.last = mc::now_ms();
        }
}
int SocketManager::getNumberOfObservers()
{
    return (int) m_p->ent.size();
}

int SocketManager::processEvent()
{
    if (m_p->ev.empty())
    {
        if (m_p->ent.empty())
            return 0;
        auto rdy = [this](SMRep::Entry &e) -> int {
            int r = ready(e);
            if (r == -1)
            {
                PDU_Assoc *pa = static_cast<PDU_Assoc *>(e.o);
                r = conn_ready(pa->m_p, e.mask);
            }
            return r;
        };
        auto any = [&]() -> bool {
            for (auto &e : m_p->ent)
                if (rdy(e))
                    return true;
            return false;
        };
        bool ok;
        while (1)
        {
            int64_t dl = -1;
            for (auto &e : m_p->ent)
                if (e.timeout > 0)
                {
                    int64_t d = e.last + e.timeout * 1000LL;
                    if (dl < 0 || d < dl)
                        dl = d;
                }
            if (mc::sched_active())
            {
                if (dl >= 0)
                    ok = mc::block_until_timeout(any, dl, "event-loop");
                else
                {
                    mc::block_until(any, "event-loop");
                    ok = true;
                }
            }
            else
            {
                ok = any();
                while (!ok && vnet::on_idle && vnet::on_idle())
                    ok = any();
                if (!ok)
                {
                    if (dl < 0)
                        mc::fail("hang:event-loop",
                                 "event loop waits for ever");
                    if (dl > mc::now_ms())
                        mc::advance_ms(dl - mc::now_ms());
                }
            }
            break;
        }
        mc::hb_acquire(&vnet::conns);
        int64_t now = mc::now_ms();
        for (auto &e : m_p->ent)
        {
            int r = rdy(e);
            if (!r && e.timeout > 0 && now >= e.last + e.timeout * 1000LL)
                r = SOCKET_OBSERVE_TIMEOUT;
            if (r)
            {
                e.last = now;
                m_p->ev.push_back(std::make_pair(e.o, r));
            }
        }
    }
    if (!m_p->ev.empty())
    {
        std::pair<ISocketObserver *, int> e = m_p->ev.front();
        m_p->ev.pop_front();
        e.first->socketNotify(e.second);
    }
    return 1;
}

PDU_Assoc::PDU_Assoc(ISocketObservable *so) : m_p(new PARep) { m_p->so = so; }
PDU_Assoc::PDU_Assoc(ISocketObservable *so, vnet::Conn *c) : m_p(new PARep)
{
    m_p->so = so;
    m_p->conn = c;
    m_p->peer = c->peer;
    m_p->state = PARep::Ready;
    so->addObserver(-2, this);
    so->maskObserver(this, SOCKET_OBSERVE_READ | SOCKET_OBSERVE_WRITE
                     | SOCKET_OBSERVE_EXCEPT);
}
PDU_Assoc::~PDU_Assoc()
{
    destroy();
    delete m_p;
}
IPDU_Observable *PDU_Assoc::clone() { return new PDU_Assoc(m_p->so); }
const char *PDU_Assoc::getpeername()
{
    return m_p->conn ? m_p->conn->peer.c_str() : 0;
}
COMSTACK PDU_Assoc::get_comstack() { return 0; }
void PDU_Assoc::set_cert_fname(const char *) {}

void PDU_Assoc::shutdown()
{
    m_p->so->deleteObserver(this);
    m_p->state = PARep::Closed;
    if (m_p->conn)
    {
        vnet::Conn *c = m_p->conn;
        m_p->conn = 0;
        c->local_closed = true;
        c->closed_at = mc::now_ms();
        mc::hb_release(&vnet::conns);
        if (vnet::on_close)
            vnet::on_close(c);
    }
    if (m_p->lst)
    {
        m_p->lst->open = false;
        m_p->lst = 0;
    }
    m_p->q.clear();
}

void PDU_Assoc::destroy()
{
    shutdown();
    if (m_p->destroyed)
        *m_p->destroyed = 1;
    m_p->destroyed = 0;
    if (m_p->parent)
        m_p->parent->m_p->children.remove(this);
    m_p->parent = 0;
    for (PDU_Assoc *c : m_p->children)
        c->m_p->parent = 0;
    m_p->children.clear();
}

void PDU_Assoc::idleTime(int t)
{
    m_p->idle = t;
    m_p->so->timeoutObserver(this, t);
}

void PDU_Assoc::close_session()
{
    m_p->dead = true;
    if (m_p->q.empty())
    {
        shutdown();
        m_p->obs->failNotify();
    }
}

int PDU_Assoc::flush_PDU()
{
    if (m_p->state != PARep::Ready && m_p->state != PARep::Writing)
        return 1;
    while (!m_p->q.empty())
    {
        if (m_p->conn->write_error)
        {
            shutdown();
            m_p->obs->failNotify();
            return -1;
        }
        if (m_p->conn->write_blocked)
        {
            m_p->state = PARep::Writing;
            return 1;
        }
        vnet::Conn *c = m_p->conn;
        c->out.push_back(m_p->q.front());
        m_p->q.pop_front();
        mc::hb_release(&vnet::conns);
        if (vnet::on_output)
            vnet::on_output(c);
    }
    m_p->state = PARep::Ready;
    if (m_p->dead)
    {
        shutdown();
        m_p->obs->failNotify();
    }
    return 0;
}

int PDU_Assoc::send_PDU(const char *buf, int len)
{
    if (!m_p->conn)
        return -1;
    bool idle = m_p->q.empty();
    m_p->q.push_back(std::string(buf, len));
    if (idle)
        return flush_PDU();
    return 0;
}

int PDU_Assoc::connect(IPDU_Observer *observer, const char *addr)
{
    shutdown();
    m_p->obs = observer;
    vnet::Conn *c = vnet::mk();
    c->host = addr;
    mc::hb_release(&vnet::conns);
    if (!vnet::on_connect || vnet::on_connect(c))
    {
        c->local_closed = true;
        return -1;
    }
    m_p->conn = c;
    m_p->state = PARep::Connecting;
    m_p->so->addObserver(-2, this);
    m_p->so->maskObserver(this, SOCKET_OBSERVE_READ | SOCKET_OBSERVE_WRITE
                          | SOCKET_OBSERVE_EXCEPT);
    return 0;
}

int PDU_Assoc::listen(IPDU_Observer *observer, const char *addr)
{
    if (!*addr)
    {
        m_p->so->deleteObserver(this);
        m_p->state = PARep::Closed;
        if (m_p->lst)
            m_p->lst->open = false;
        m_p->lst = 0;
        return 0;
    }
    shutdown();
    m_p->obs = observer;
    if (vnet::find_listener(addr))
        return -1;
    vnet::Listener *l = new vnet::Listener;
    l->addr = addr;
    l->open = true;
    vnet::listeners.push_back(l);
    m_p->lst = l;
    m_p->state = PARep::Listen;
    m_p->so->addObserver(-2, this);
    m_p->so->maskObserver(this, SOCKET_OBSERVE_READ | SOCKET_OBSERVE_EXCEPT);
    return 0;
}

void PDU_Assoc::socketNotify(int event)
{
    if (event & SOCKET_OBSERVE_EXCEPT)
    {
        shutdown();
        m_p->obs->failNotify();
        return;
    }
    if (event & SOCKET_OBSERVE_TIMEOUT)
    {
        m_p->obs->timeoutNotify();
        return;
    }
    switch (m_p->state)
    {
    case PARep::Connecting:
        if ((event & SOCKET_OBSERVE_READ) && (event & SOCKET_OBSERVE_WRITE))
        {
            shutdown();
            m_p->obs->failNotify();
        }
        else
        {
            m_p->state = PARep::Ready;
            m_p->obs->connectNotify();
            flush_PDU();
        }
        break;
    case PARep::Listen:
        if (m_p->lst && !m_p->lst->backlog.empty())
        {
            vnet::Conn *c = m_p->lst->backlog.front();
            m_p->lst->backlog.pop_front();
            PDU_Assoc *n = new PDU_Assoc(m_p->so, c);
            m_p->children.push_back(n);
            n->m_p->parent = this;
            IPDU_Observer *o = m_p->obs->sessionNotify(n, c->id);
            if (!o)
            {
                c->refused = true;
                delete n;
                return;
            }
            c->accepted = true;
            n->m_p->obs = o;
        }
        break;
    case PARep::Writing:
        if (event & (SOCKET_OBSERVE_READ | SOCKET_OBSERVE_WRITE))
            flush_PDU();
        break;
    case PARep::Ready:
        if (event & SOCKET_OBSERVE_WRITE)
        {
            int destroyed = 0;
            m_p->destroyed = &destroyed;
            flush_PDU();
            if (destroyed)
                return;
            m_p->destroyed = 0;
        }
        if (event & SOCKET_OBSERVE_READ)
        {
            do
            {
                if (!m_p->conn)
                    return;
                if (m_p->conn->in.empty())
                {
                    if (m_p->conn->in_eof)
                    {
                        shutdown();
                        m_p->obs->failNotify();
                    }
                    return;
                }
                std::string s = m_p->conn->in.front();
                m_p->conn->in.pop_front();
                m_p->conn->in_count++;
                int destroyed = 0;
                m_p->destroyed = &destroyed;
                if (!m_p->obs)
                    return;
                m_p->obs->recv_PDU(s.data(), (int) s.size());
                if (destroyed)
                    return;
                m_p->destroyed = 0;
            } while (m_p->conn && !m_p->conn->in.empty());
        }
        break;
    case PARep::Closed:
        shutdown();
        m_p->obs->failNotify();
        break;
    }
}

// ------------------------------------------------------------------ Z_Assoc
class Z_Assoc::ZARep {
public:
    IPDU_Observable *o;
    ODR in, out;
    std::string host;
};

Z_Assoc::Z_Assoc(IPDU_Observable *o) : m_p(new ZARep)
{
    m_p->o = o;
    m_p->in = odr_createmem(ODR_DECODE);
    m_p->out = odr_createmem(ODR_ENCODE);
}
Z_Assoc::~Z_Assoc()
{
    m_p->o->destroy();
    delete m_p->o;
    odr_destroy(m_p->in);
    odr_destroy(m_p->out);
    delete m_p;
}
void Z_Assoc::timeout(int t) { m_p->o->idleTime(t); }
void Z_Assoc::close() { m_p->o->close_session(); }
int Z_Assoc::client(const char *addr)
{
    m_p->host = addr;
    return m_p->o->connect(this, addr);
}
int Z_Assoc::server(const char *addr) { return m_p->o->listen(this, addr); }
const char *Z_Assoc::get_hostname() { return m_p->host.c_str(); }
const char *Z_Assoc::getpeername() { return m_p->o->getpeername(); }
ODR Z_Assoc::odr_encode() { return m_p->out; }
ODR Z_Assoc::odr_decode() { return m_p->in; }
void Z_Assoc::recv_PDU(const char *buf, int len)
{
    odr_reset(m_p->in);
    odr_setbuf(m_p->in, (char *) buf, len, 0);
    Z_GDU *g = 0;
    if (z_GDU(m_p->in, &g, 0, 0))
        recv_GDU(g, len);
    else
    {
        m_p->o->shutdown();
        failNotify();
    }
}
int Z_Assoc::send_GDU(Z_GDU *g, int *len)
{
    odr_reset(m_p->out);
    if (!z_GDU(m_p->out, &g, 0, 0))
        return -1;
    int l;
    char *b = odr_getbuf(m_p->out, &l, 0);
    if (len)
        *len = l;
    std::string s(b, l);
    return m_p->o->send_PDU(s.data(), l);
}
int Z_Assoc::send_Z_PDU(Z_APDU *a, int *len)
{
    Z_GDU g;
    g.which = Z_GDU_Z3950;
    g.u.z3950 = a;
    return send_GDU(&g, len);
}

// ---------------------------------------------------------------------- GDU
GDU::GDU() : m_gdu(0), m_decode(odr_createmem(ODR_DECODE)), m_encode_size(0) {}
GDU::GDU(Z_APDU *apdu)
{
    Z_GDU g;
    g.which = Z_GDU_Z3950;
    g.u.z3950 = apdu;
    base(&g, odr_createmem(ODR_ENCODE));
}
GDU::GDU(Z_GDU *gdu) { base(gdu, odr_createmem(ODR_ENCODE)); }
GDU::GDU(Z_GDU *gdu, int sz)
{
    base(gdu, odr_createmem(ODR_ENCODE));
    m_encode_size = sz;
}
GDU::GDU(const GDU &g) { base(g.m_gdu, odr_createmem(ODR_ENCODE)); }
void GDU::base(Z_GDU *gdu, ODR encode)
{
    m_decode = odr_createmem(ODR_DECODE);
    m_gdu = 0;
    m_encode_size = 0;
    if (gdu)
    {
        if (z_GDU(encode, &gdu, 0, "encode"))
        {
            int len;
            char *buf = odr_getbuf(encode, &len, 0);
            m_encode_size = len;
            odr_setbuf(m_decode, buf, len, 0);
            z_GDU(m_decode, &m_gdu, 0, 0);
        }
    }
    odr_destroy(encode);
}
GDU::~GDU() { odr_destroy(m_decode); }
GDU &GDU::operator=(const GDU &g)
{
    if (this != &g)
    {
        odr_destroy(m_decode);
        base(g.m_gdu, odr_createmem(ODR_ENCODE));
    }
    return *this;
}
Z_GDU *GDU::get() const { return m_gdu; }
int GDU::get_size() { return m_encode_size; }
void GDU::move_away_gdu(Z_GDU *&gdu, ODR odr)
{
    gdu = m_gdu;
    NMEM nmem = odr_extract_mem(m_decode);
    nmem_transfer(odr_getmem(odr), nmem);
    nmem_destroy(nmem);
    m_gdu = 0;
}

// -------------------------------------------------------------- Yaz_Z_Query
Yaz_Z_Query::Yaz_Z_Query() : m_buf(0), m_len(0)
{
    odr_encode = odr_createmem(ODR_ENCODE);
    odr_decode = odr_createmem(ODR_DECODE);
}
Yaz_Z_Query::Yaz_Z_Query(const Yaz_Z_Query &q) : Yaz_Query(q), m_buf(0), m_len(0)
{
    odr_encode = odr_createmem(ODR_ENCODE);
    odr_decode = odr_createmem(ODR_DECODE);
    m_len = q.m_len;
    if (q.m_buf)
    {
        m_buf = (char *) odr_malloc(odr_encode, m_len);
        memcpy(m_buf, q.m_buf, m_len);
    }
}
Yaz_Z_Query &Yaz_Z_Query::operator=(const Yaz_Z_Query &q)
{
    if (this != &q)
    {
        odr_reset(odr_encode);
        m_buf = 0;
        m_len = q.m_len;
        if (q.m_buf)
        {
            m_buf = (char *) odr_malloc(odr_encode, m_len);
            memcpy(m_buf, q.m_buf, m_len);
        }
    }
    return *this;
}
Yaz_Z_Query::~Yaz_Z_Query()
{
    odr_destroy(odr_encode);
    odr_destroy(odr_decode);
}
void Yaz_Z_Query::set_Z_Query(Z_Query *q)
{
    odr_reset(odr_encode);
    if (!z_Query(odr_encode, &q, 0, 0))
    {
        m_buf = 0;
        return;
    }
    int len;
    char *b = odr_getbuf(odr_encode, &len, 0);
    std::string s(b, len);
    m_buf = (char *) odr_malloc(odr_encode, len);
    memcpy(m_buf, s.data(), len);
    m_len = len;
}
int Yaz_Z_Query::set_rpn(const char *rpn)
{
    ODR o = odr_createmem(ODR_ENCODE);
    Z_Query q;
    q.which = Z_Query_type_1;
    q.u.type_1 = p_query_rpn(o, rpn);
    int r = -1;
    if (q.u.type_1)
    {
        set_Z_Query(&q);
        r = 0;
    }
    odr_destroy(o);
    return r;
}
Z_Query *Yaz_Z_Query::get_Z_Query()
{
    Z_Query *q = 0;
    if (!m_buf)
        return 0;
    odr_reset(odr_decode);
    odr_setbuf(odr_decode, m_buf, m_len, 0);
    if (!z_Query(odr_decode, &q, 0, 0))
        return 0;
    return q;
}
void Yaz_Z_Query::print(char *s, size_t len)
{
    if (len)
        *s = 0;
}
int Yaz_Z_Query::match(const Yaz_Query *other)
{
    const Yaz_Z_Query *q = (const Yaz_Z_Query *) other;
    if (m_len != q->m_len)
        return 0;
    if (!m_buf || !q->m_buf)
        return 0;
    return memcmp(m_buf, q->m_buf, m_len) == 0;
}

// -------------------------------------------------------------- Yaz_cql2rpn
Yaz_cql2rpn::Yaz_cql2rpn() : m_transform(0) {}
Yaz_cql2rpn::~Yaz_cql2rpn()
{
    if (m_transform)
        cql_transform_close(m_transform);
}
void Yaz_cql2rpn::set_pqf_file(const char *f)
{
    if (!m_transform)
        m_transform = cql_transform_open_fname(f);
}
bool Yaz_cql2rpn::parse_spec_file(const char *f, int *err)
{
    *err = 0;
    cql_transform_close(m_transform);
    m_transform = cql_transform_open_fname(f);
    return m_transform ? true : false;
}
int Yaz_cql2rpn::query_transform(const char *cql, Z_RPNQuery **rpn, ODR o,
                                 char **addinfop)
{
    const char *addinfo = 0;
    if (!m_transform)
        return -3;
    CQL_parser cp = cql_parser_create();
    int r = cql_parser_string(cp, cql);
    if (r)
        r = YAZ_SRW_QUERY_SYNTAX_ERROR;
    else
    {
        WRBUF w = wrbuf_alloc();
        r = cql_transform(m_transform, cql_parser_result(cp),
                          wrbuf_vp_puts, w);
        if (!r)
        {
            YAZ_PQF_Parser pp = yaz_pqf_create();
            *rpn = yaz_pqf_parse(pp, o, wrbuf_cstr(w));
            if (!*rpn)
                r = YAZ_SRW_QUERY_SYNTAX_ERROR;
            yaz_pqf_destroy(pp);
        }
        else
        {
            r = cql_transform_error(m_transform, &addinfo);
            *addinfop = addinfo ? odr_strdup(o, addinfo) : 0;
        }
        wrbuf_destroy(w);
    }
    cql_parser_destroy(cp);
    return r;
}
int Yaz_cql2rpn::rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o,
                                   char **addinfop)
{
    const char *addinfo = 0;
    if (!m_transform)
        return -3;
    int r = cql_transform_rpn2cql_wrbuf(m_transform, cql, q);
    if (r)
    {
        r = cql_transform_error(m_transform, &addinfo);
        if (addinfo)
            *addinfop = odr_strdup(o, addinfo);
    }
    return r;
}

// -------------------------------------------------------------- RecordCache
namespace yazpp_1 {
    struct RecordCache_Entry {
        std::string rec, comp;
        int off;
        bool diag;
        Odr_oid oid[OID_SIZE];
        bool has_oid;
    };
}
static std::string enc_comp(Z_RecordComposition *c)
{
    std::string r;
    if (!c)
        return r;
    ODR o = odr_createmem(ODR_ENCODE);
    if (z_RecordComposition(o, &c, 0, 0))
    {
        int len;
        char *b = odr_getbuf(o, &len, 0);
        r.assign(b, len);
    }
    odr_destroy(o);
    return r;
}
RecordCache::RecordCache() : m_mem(nmem_create()), m_searchRequest(0),
                             m_presentRequest(0), m_max_size(200000) {}
RecordCache::~RecordCache()
{
    clear();
    nmem_destroy(m_mem);
}
void RecordCache::clear()
{
    for (auto e : entries)
        delete e;
    entries.clear();
    nmem_reset(m_mem);
    m_searchRequest = 0;
    m_presentRequest = 0;
}
void RecordCache::set_max_size(int sz) { m_max_size = sz; }
template <class T>
static T *copy_via(NMEM mem, T *p, int (*fn)(ODR, T **, int, const char *))
{
    ODR e = odr_createmem(ODR_ENCODE), d = odr_createmem(ODR_DECODE);
    T *q = 0;
    if (fn(e, &p, 0, 0))
    {
        int len;
        char *b = odr_getbuf(e, &len, 0);
        odr_setbuf(d, b, len, 0);
        fn(d, &q, 0, 0);
        NMEM m = odr_extract_mem(d);
        nmem_transfer(mem, m);
        nmem_destroy(m);
    }
    odr_destroy(e);
    odr_destroy(d);
    return q;
}
void RecordCache::copy_searchRequest(Z_SearchRequest *sr)
{
    m_searchRequest = copy_via(m_mem, sr, z_SearchRequest);
}
void RecordCache::copy_presentRequest(Z_PresentRequest *pr)
{
    m_presentRequest = copy_via(m_mem, pr, z_PresentRequest);
}
void RecordCache::add(ODR o, Z_NamePlusRecordList *npr, int start, int hits)
{
    std::string comp;
    if (hits == -1 && m_presentRequest)
        comp = enc_comp(m_presentRequest->recordComposition);
    else if (hits > 0 && m_searchRequest)
    {
        Z_ElementSetNames *esn =
            hits <= *m_searchRequest->smallSetUpperBound ?
            m_searchRequest->smallSetElementSetNames :
            m_searchRequest->mediumSetElementSetNames;
        if (esn)
        {
            Z_RecordComposition c;
            c.which = Z_RecordComp_simple;
            c.u.simple = esn;
            comp = enc_comp(&c);
        }
    }
    add1(npr, start, comp);
}
void RecordCache::add(ODR o, Z_NamePlusRecordList *npr, int start,
                      Z_RecordComposition *comp)
{
    add1(npr, start, enc_comp(comp));
}
void RecordCache::add1(Z_NamePlusRecordList *npr, int start,
                       const std::string &comp)
{
    for (int i = 0; i < npr->num_records; i++)
    {
        Z_NamePlusRecord *r = npr->records[i];
        if (!r)
            continue;
        ODR e = odr_createmem(ODR_ENCODE);
        if (z_NamePlusRecord(e, &r, 0, 0))
        {
            RecordCache_Entry *en = new RecordCache_Entry;
            int len;
            char *b = odr_getbuf(e, &len, 0);
            en->rec.assign(b, len);
            en->comp = comp;
            en->off = start + i;
            en->diag = r->which != Z_NamePlusRecord_databaseRecord;
            en->has_oid = false;
            if (!en->diag && r->u.databaseRecord->direct_reference)
            {
                oid_oidcpy(en->oid, r->u.databaseRecord->direct_reference);
                en->has_oid = true;
            }
            entries.push_front(en);
        }
        odr_destroy(e);
    }
}
bool RecordCache::match(RecordCache_Entry *e, Odr_int pos, Odr_oid *syntax,
                        Z_RecordComposition *comp)
{
    if (e->off != pos)
        return false;
    if (enc_comp(comp) != e->comp)
        return false;
    if (e->diag || !syntax)
        return true;
    return e->has_oid && !oid_oidcmp(e->oid, syntax);
}
int RecordCache::lookup(ODR o, Z_NamePlusRecordList **npr, int start, int num,
                        Odr_oid *syntax, Z_RecordComposition *comp)
{
    std::vector<RecordCache_Entry *> f;
    for (int i = 0; i < num; i++)
    {
        RecordCache_Entry *hit = 0;
        for (auto e : entries)
            if (match(e, start + i, syntax, comp))
            {
                hit = e;
                break;
            }
        if (!hit)
            return 0;
        f.push_back(hit);
    }
    *npr = (Z_NamePlusRecordList *) odr_malloc(o, sizeof(**npr));
    (*npr)->num_records = num;
    (*npr)->records = (Z_NamePlusRecord **)
        odr_malloc(o, (num ? num : 1) * sizeof(Z_NamePlusRecord *));
    for (int i = 0; i < num; i++)
    {
        ODR d = odr_createmem(ODR_DECODE);
        Z_NamePlusRecord *r = 0;
        odr_setbuf(d, (char *) f[i]->rec.data(), (int) f[i]->rec.size(), 0);
        z_NamePlusRecord(d, &r, 0, 0);
        (*npr)->records[i] = r;
        NMEM m = odr_extract_mem(d);
        nmem_transfer(odr_getmem(o), m);
        nmem_destroy(m);
        odr_destroy(d);
    }
    return 1;
}

// ------------------------------------------------------ TimeStat, LimitConnect
TimeStat::TimeStat(int sz) : m_bucket(new int[sz]), m_sec(0), m_ptr(0), m_size(sz)
{
    memset(m_bucket, 0, sizeof(int) * sz);
}
TimeStat::TimeStat(const TimeStat &t)
    : m_bucket(new int[t.m_size]), m_sec(t.m_sec), m_ptr(t.m_ptr),
      m_size(t.m_size)
{
    memcpy(m_bucket, t.m_bucket, sizeof(int) * m_size);
}
TimeStat &TimeStat::operator=(const TimeStat &t)
{
    if (this != &t)
    {
        delete [] m_bucket;
        m_bucket = new int[t.m_size];
        m_sec = t.m_sec;
        m_ptr = t.m_ptr;
        m_size = t.m_size;
        memcpy(m_bucket, t.m_bucket, sizeof(int) * m_size);
    }
    return *this;
}
TimeStat::~TimeStat() { delete [] m_bucket; }
int TimeStat::get_total()
{
    int t = 0;
    for (long i = 0; i < m_size; i++)
        t += m_bucket[i];
    return t;
}
void TimeStat::add_bytes(int b)
{
    long now = (long) ::time(0);
    if (m_sec == 0)
        m_sec = now;
    long d = now - m_sec;
    if (d > m_size)
        d = m_size;
    while (--d >= 0)
    {
        if (++m_ptr == m_size)
            m_ptr = 0;
        m_bucket[m_ptr] = 0;
    }
    m_bucket[m_ptr] += b;
    m_sec = now;
}
LimitConnect::LimitConnect() : m_period(60) {}
LimitConnect::~LimitConnect() { cleanup(true); }
void LimitConnect::set_period(int sec) { m_period = sec; }
void LimitConnect::add_connect(const char *p)
{
    TimeStat *&t = m_peers[p];
    if (!t)
        t = new TimeStat(m_period);
    t->add_bytes(1);
}
int LimitConnect::get_total(const char *p)
{
    auto it = m_peers.find(p);
    return it == m_peers.end() ? 0 : it->second->get_total();
}
void LimitConnect::cleanup(bool all)
{
    for (auto it = m_peers.begin(); it != m_peers.end(); )
    {
        it->second->add_bytes(0);
        if (all || it->second->get_total() == 0)
        {
            delete it->second;
            m_peers.erase(it++);
        }
        else
            ++it;
    }
}
