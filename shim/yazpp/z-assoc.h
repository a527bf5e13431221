#ifndef SHIM_Z_ASSOC_H
#define SHIM_Z_ASSOC_H
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <yaz/odr.h>
#include <yazpp/pdu-observer.h>
#include <string>
namespace yazpp_1 {
    class Z_Assoc : public IPDU_Observer {
    public:
        class ZARep;
        ZARep *m_p;
        Z_Assoc(IPDU_Observable *o);
        virtual ~Z_Assoc();
        void recv_PDU(const char *buf, int len);
        virtual void connectNotify() = 0;
        virtual void failNotify() = 0;
        virtual void timeoutNotify() = 0;
        void timeout(int t);
        void close();
        int client(const char *addr);
        int server(const char *addr);
        virtual void recv_GDU(Z_GDU *apdu, int len) = 0;
        int send_GDU(Z_GDU *apdu, int *len);
        int send_Z_PDU(Z_APDU *apdu, int *len);
        ODR odr_encode();
        ODR odr_decode();
        const char *get_hostname();
        const char *getpeername();
    };
}
#endif
