// Virtual network under the YAZ++ stand-in: the harness owns the far end.
#ifndef VNET_HPP
#define VNET_HPP
#include <deque>
#include <vector>
#include <string>
#include <functional>
#include <yaz/zgdu.h>
#include <yazpp/pdu-assoc.h>
namespace vnet {
    struct Listener {
        std::string addr;
        bool open;
        std::deque<Conn *> backlog;
        std::vector<Conn *> accepted;
    };
    struct Conn {
        int id;
        std::string peer, host;
        std::deque<std::string> in;   // towards the code under test
        bool in_eof;                  // far end closed
        std::vector<std::string> out; // PDUs the code under test sent
        bool local_closed;            // code under test closed it
        int64_t closed_at;
        bool accepted, refused;
        int connect;                  // 0 pending, 1 ok, -1 failed
        bool write_blocked, write_error;
        int in_count;                 // PDUs handed to the code under test
        Conn() : id(0), in_eof(false), local_closed(false), closed_at(0),
                 accepted(false), refused(false), connect(0),
                 write_blocked(false), write_error(false), in_count(0) {}
    };
    // outgoing connects; return nonzero for immediate failure.  The handler
    // sets c->connect.
    extern std::function<int(Conn *)> on_connect;
    // called after a PDU was appended to c->out
    extern std::function<void(Conn *)> on_output;
    // called when nothing is ready and no scheduler is active; returns true
    // if it made something happen
    extern std::function<bool()> on_idle;
    // called when the code under test closes its end
    extern std::function<void(Conn *)> on_close;
    extern std::vector<Conn *> conns;
    extern std::vector<Listener *> listeners;
    Listener *find_listener(const std::string &addr);
    Conn *dial(const std::string &addr, const std::string &peer);
    void send(Conn *c, const std::string &bytes);
    void send(Conn *c, Z_GDU *g);
    void send(Conn *c, Z_APDU *a);
    void remote_close(Conn *c);
    std::string encode(Z_GDU *g);
    std::string encode(Z_APDU *a);
    Z_GDU *decode(const std::string &s, ODR o);
    void reset();
}
#endif
