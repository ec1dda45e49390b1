/* alignment and the small-value mapping. The start position is every position of the buffer. */
#include "rtl.h"
#ifndef AL
#define AL 8
#endif
static void go(flag enc) { if (AL == 8) Acn_AlignToNextByte(&S, enc); else if (AL == 16) Acn_AlignToNextWord(&S, enc); else Acn_AlignToNextDWord(&S, enc); }
static void any(long p) { int i; for (i = 0; i < NB; i++) B[i] = O[i] = vin8(); BitStream_AttachBuffer(&S, B, NB); P0 = p; setpos(&S, p); }
static long next(long p) { return (p + AL - 1) / AL * AL; }
/* encoding: as written by an encoder into any buffer: the skipped bits come out zero, all others as they were */
static void e1(int p) { int i; long q = next(p); any(p);
#ifdef ZEROED
    for (i = 0; i < NB; i++) { long lo = 8 * i; byte m = (byte)(lo >= p ? 0 : lo + 8 <= p ? 0xFF : 0xFF << (lo + 8 - p)); B[i] &= m; O[i] = B[i]; }
#endif
    go(TRUE); CHECK(spos(&S) == q && S.currentBit == 0, "position is the next boundary");
    for (i = p; i < q; i++) CHECK(rbit(B, i) == 0, "skipped bits are zero");
    SAME_OUTSIDE(q - p); if (p == NB * 8) REACH("end"); if (p == AL + 1) REACH("one"); }
void e(void) { SPLIT(p, 0, NB * 8, e1(p)); }
static void d1(int p) { any(p); go(FALSE); CHECK(spos(&S) == next(p) && S.currentBit == 0, "position is the next boundary"); SAME_OUTSIDE(0); if (p == NB * 8) REACH("end"); if (p == AL + 1) REACH("one"); }
void d(void) { SPLIT(p, 0, NB * 8, d1(p)); }
void mil(void) {
    asn1SccSint v = (asn1SccSint)vin64(), w = (asn1SccSint)vin64(); ASSUME(v >= 1 && v <= 32 && w >= 0 && w <= 31);
    CHECK(milbus_decode(milbus_encode(v)) == v, "inverse on lengths"); CHECK(milbus_encode(milbus_decode(w)) == w, "inverse on codes");
    CHECK(milbus_encode(v) >= 0 && milbus_encode(v) <= 31 && milbus_decode(w) >= 1 && milbus_decode(w) <= 32, "range");
    CHECK(milbus_encode(v) == (v == 32 ? 0 : v) && milbus_decode(w) == (w == 0 ? 32 : w), "only 32 is mapped");
    asn1SccSint x = (asn1SccSint)vin64();
    CHECK(milbus_encode(x) == (x == 32 ? 0 : x) && milbus_decode(x) == (x == 0 ? 32 : x), "every other number is left alone");
    if (v == 32) REACH("32"); if (w == 0) REACH("0");
}
