#include "vh.h"
#include "Crc.h"
#include "crcref.h"
#ifndef NN
#define NN 8
#endif
#ifndef EN
#define EN 8
#endif
static uint8_t D[NN + EN + 4], E[NN + EN + 4];
/* one octet, any earlier value: by induction every length */
void step(void) { uint16_t c = vin16(); D[0] = vin8(); REACH("any"); CHECK(Asn1PuscLib_Crc_update(c, D, 1) == crc_ref(c, D, 1), "one octet by the polynomial"); }
void empty(void) { uint16_t c = vin16(); REACH("any"); CHECK(Asn1PuscLib_Crc_update(c, D, 0) == c, "no octet changes nothing"); CHECK(Asn1PuscLib_Crc_calculate(D, 0) == 0xFFFF, "the initial value"); }
/* in pieces: the calls agree, whatever one octet does */
static void cut(int n, int k) {
    uint16_t c = vin16(), p; int i;
    for (i = 0; i < n; i++) D[i] = vin8();
    p = Asn1PuscLib_Crc_update(c, D, (size_t)k);
    REACH("any pieces");
    CHECK(Asn1PuscLib_Crc_update(p, D + k, (size_t)(n - k)) == Asn1PuscLib_Crc_update(c, D, (size_t)n), "in pieces as at once");
}
static void cuts(int n) { SPLIT(k, 0, n, cut(n, k)); }
void pieces(void) { SPLIT(n, 0, NN, cuts(n)); }
static void def1(int n) {
    int i;
    for (i = 0; i < n; i++) D[i] = vin8();
    REACH("any message");
    CHECK(Asn1PuscLib_Crc_calculate(D, (size_t)n) == crc_ref(0xFFFF, D, n), "the definition");
}
void def(void) { SPLIT(n, 0, NN, def1(n)); }
/* the checksum of anything followed by itself is zero */
void ver(void) {
    uint16_t c = vin16();
    D[0] = (uint8_t)(c >> 8); D[1] = (uint8_t)c;
    REACH("any");
    CHECK(Asn1PuscLib_Crc_update(c, D, 2) == 0, "a message followed by its CRC verifies");
}
/* errors: the CRC is linear, so that an error is detected when the CRC of the error from zero is not zero */
void linear(void) {
    uint16_t a = vin16(), b = vin16();
    D[0] = vin8(); D[1] = vin8(); D[2] = D[0] ^ D[1];
    REACH("any");
    CHECK((Asn1PuscLib_Crc_update(a, D, 1) ^ Asn1PuscLib_Crc_update(b, D + 1, 1)) == Asn1PuscLib_Crc_update(a ^ b, D + 2, 1), "linear");
}
void zeros(void) {
    uint16_t a = vin16();
    D[0] = 0;
    REACH("any");
    CHECK((Asn1PuscLib_Crc_update(a, D, 1) == 0) == (a == 0), "octets without error neither make nor cancel an error");
}
static void burst1(int k) {
    uint32_t v = (uint32_t)vin16() << 8 >> k;
    ASSUME(v != 0);
    D[0] = (uint8_t)(v >> 16); D[1] = (uint8_t)(v >> 8); D[2] = (uint8_t)v;
    REACH("any burst");
    CHECK(Asn1PuscLib_Crc_update(0, D, 3) != 0, "a burst of up to 16 bits is detected");
}
void burst(void) { SPLIT(k, 0, 7, burst1(k)); }
static void pair1(int d) {
    int i, a = (int)vin_range(0, 7);
    for (i = 1; i <= EN; i++) E[i] = 0;
    E[0] = (uint8_t)(0x80 >> a);
    i = (int)vin_range(0, 7);
    ASSUME(d > 0 || i > a);
    E[d] |= (uint8_t)(0x80 >> i);
    REACH("any pair");
    CHECK(Asn1PuscLib_Crc_update(0, E, (size_t)d + 1) != 0, "two changed bits are detected");
}
void pair(void) { SPLIT(d, 0, EN, pair1(d)); }
