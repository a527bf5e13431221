#ifndef SHIM_GDU_H
#define SHIM_GDU_H
#include <yaz/zgdu.h>
#include <yaz/wrbuf.h>
#include <yaz/proto.h>
#include <yaz/marcdisp.h>
#include <yaz/srw.h>
#include <yaz/z-core.h>
namespace yazpp_1 {
    class GDU {
    public:
        GDU(Z_APDU *apdu);
        GDU(Z_GDU *gdu);
        GDU(Z_GDU *gdu, int encode_size);
        GDU();
        GDU(const GDU &g);
        ~GDU();
        GDU &operator=(const GDU &g);
        Z_GDU *get() const;
        void move_away_gdu(Z_GDU *&gdu, ODR odr);
        bool is_response_pdu() { return false; }
        int get_size();
    private:
        void base(Z_GDU *gdu, ODR encode);
        Z_GDU *m_gdu;
        ODR m_decode;
        int m_encode_size;
    };
}
#endif
