#include "vh.h"
#include "IsoChecksum.h"
#include "crcref.h"
#ifndef LO
#define LO 0
#define HI 8
#endif
#ifndef SYM
#define SYM -1
#endif
#ifndef GIVEN
#define GIVEN 0
#endif
static uint8_t D[HI + 4];
static void def1(int n) {
    int i; uint16_t c;
    for (i = 0; i < n; i++) D[i] = i >= GIVEN || i == SYM ? vin8() : (uint8_t)(i * 37 + 200);
    c = Asn1PuscLib_IsoChecksum_calculate(D, (size_t)n);
    REACH("any message");
    CHECK(c == iso_ref(D, n), "the definition");
    CHECK((c & 0xFF) != 0 && (c >> 8) != 0, "no octet of the checksum is zero");
}
void def(void) { SPLIT(n, LO, HI, def1(n)); }
static void ver1(int n) {
    int i, a, b; uint16_t c;
    for (i = 0; i < n; i++) D[i] = vin8();
    c = Asn1PuscLib_IsoChecksum_calculate(D, (size_t)n);
    D[n] = (uint8_t)(c >> 8); D[n + 1] = (uint8_t)c;
    iso_sums(D, n + 2, &a, &b);
    REACH("any message");
    CHECK(a == 0 && b == 0, "a message followed by its checksum verifies");
}
void ver(void) { SPLIT(n, LO, HI, ver1(n)); }
/* one octet changed */
static void err1(int n, int at) {
    int i; uint8_t v = vin8();
    uint16_t c;
    for (i = 0; i < n; i++) D[i] = vin8();
    c = Asn1PuscLib_IsoChecksum_calculate(D, (size_t)n);
    ASSUME(oct255(v) != oct255(D[at]));
    D[at] = v;
    REACH("any change");
    CHECK(Asn1PuscLib_IsoChecksum_calculate(D, (size_t)n) != c, "a changed octet changes the checksum");
}
static void err2(int n) { if (n) SPLIT(at, 0, n - 1, err1(n, at)); }
void err(void) { SPLIT(n, LO, HI, err2(n)); }
