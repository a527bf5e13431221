#ifndef SHIM_PDU_ASSOC_H
#define SHIM_PDU_ASSOC_H
#include <yazpp/socket-observer.h>
#include <yazpp/pdu-observer.h>
namespace vnet { struct Conn; struct Listener; }
namespace yazpp_1 {
    class PDU_Assoc : public IPDU_Observable, public ISocketObserver {
    public:
        class PARep;
        PARep *m_p;
        PDU_Assoc(ISocketObservable *so);
        PDU_Assoc(ISocketObservable *so, vnet::Conn *c);
        virtual ~PDU_Assoc();
        void socketNotify(int event);
        int send_PDU(const char *buf, int len);
        int connect(IPDU_Observer *observer, const char *addr);
        int listen(IPDU_Observer *observer, const char *addr);
        void shutdown();
        IPDU_Observable *clone();
        void destroy();
        void idleTime(int timeout);
        const char *getpeername();
        void close_session();
        COMSTACK get_comstack();
        void set_cert_fname(const char *fname);
    private:
        int flush_PDU();
        friend class SocketManager;
    };
}
#endif
