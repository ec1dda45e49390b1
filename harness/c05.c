#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#define WB (WORD_SIZE * 8)
#ifndef KLO     /* this process: encodings of KLO..KHI bits of offset */
#define KLO 0
#define KHI 64
#define SG 2    /* 0: not negative, 1: negative, 2: both */
#endif
#define WMASK ((asn1SccUint)-1)
#define SMIN ((asn1SccSint)((asn1SccUint)1 << (WB - 1)))
#define SMAX ((asn1SccSint)~((asn1SccUint)1 << (WB - 1)))
static int sbytes(asn1SccSint v) {  /* octets of the shortest two's complement form */
    int n; for (n = 1; n < WORD_SIZE; n++) { asn1SccSint lim = (asn1SccSint)1 << (n * 8 - 1); if (v >= -lim && v < lim) return n; }
    return WORD_SIZE;
}
static int ubytes(asn1SccUint v) { int n = (nb_of(v) + 7) / 8; return n ? n : 1; }
/* the k<=64 bits at the position are the low k bits of v, nothing else changed */
static void window(int off, int k, asn1SccUint v, int others) {
    asn1SccUint W = (asn1SccUint)rval(B, P0 + off, WB), W0 = (asn1SccUint)rval(O, P0 + off, WB);
    asn1SccUint low = k ? (k == WB ? 0 : WMASK >> k) : WMASK;
    CHECK((k ? W >> (WB - k) : 0) == (k ? v & (WMASK >> (WB - k)) : 0), "encoded bits");
    CHECK(((W ^ W0) & low) == 0, "bits after the encoding changed");
    SAME_OUTSIDE(others);
}
void e_con(void) {
    end_stream(72, CB);
    asn1SccSint v = (asn1SccSint)vin64(), lo = (asn1SccSint)vin64(), hi = (asn1SccSint)vin64(); ASSUME(lo <= v && v <= hi);
    int k = nb_of((asn1SccUint)hi - (asn1SccUint)lo); ASSUME(k >= KLO && k <= KHI);
    BitStream_EncodeConstraintWholeNumber(&S, v, lo, hi); POS(k);
    window(0, k, (asn1SccUint)v - (asn1SccUint)lo, WB);
    if (k == (KHI < WB ? KHI : WB)) REACH("wide"); if (k == (KLO < 3 ? 3 : KLO)) REACH("narrow");
}
void e_conpos(void) {
    end_stream(72, CB);
    asn1SccUint v = (asn1SccUint)vin64(), lo = (asn1SccUint)vin64(), hi = (asn1SccUint)vin64(); ASSUME(lo <= v && v <= hi);
    int k = nb_of(hi - lo); ASSUME(k >= KLO && k <= KHI);
    BitStream_EncodeConstraintPosWholeNumber(&S, v, lo, hi); POS(k);
    window(0, k, v - lo, WB);
    if (k == (KHI < WB ? KHI : WB)) REACH("wide"); if (k == (KLO < 3 ? 3 : KLO)) REACH("narrow");
}
static void len_content(int n, asn1SccUint v) {
    POS(8 + 8 * n);
    CHECK(rval(B, P0, 8) == (uint64_t)n, "length octet");
    window(8, 8 * n, v, 8 + WB);
}
void e_semi(void) {
    end_stream(80, CB);
    asn1SccSint v = (asn1SccSint)vin64(), lo = (asn1SccSint)vin64(); ASSUME(lo <= v);
    asn1SccUint d = (asn1SccUint)v - (asn1SccUint)lo; int n = ubytes(d); ASSUME(n * 8 >= KLO && n * 8 <= KHI);
    BitStream_EncodeSemiConstraintWholeNumber(&S, v, lo); len_content(n, d);
    if (n == (KHI < WB ? KHI / 8 : WORD_SIZE)) REACH("longest"); if (n == (KLO < 8 ? 1 : (KLO + 7) / 8)) REACH("shortest");
}
void e_semipos(void) {
    end_stream(80, CB);
    asn1SccUint v = (asn1SccUint)vin64(), lo = (asn1SccUint)vin64(); ASSUME(lo <= v);
    asn1SccUint d = v - lo; int n = ubytes(d); ASSUME(n * 8 >= KLO && n * 8 <= KHI);
    BitStream_EncodeSemiConstraintPosWholeNumber(&S, v, lo); len_content(n, d);
    if (n == (KHI < WB ? KHI / 8 : WORD_SIZE)) REACH("longest"); if (n == (KLO < 8 ? 1 : (KLO + 7) / 8)) REACH("shortest");
}
void e_uncon(void) {
    end_stream(80, CB);
    asn1SccSint v = (asn1SccSint)vin64(); int n = sbytes(v); ASSUME(n * 8 >= KLO && n * 8 <= KHI && (SG == 2 || (v < 0) == SG));
    BitStream_EncodeUnConstraintWholeNumber(&S, v); len_content(n, (asn1SccUint)v);
    if (n == (KHI < WB ? KHI / 8 : WORD_SIZE)) REACH("longest"); if (n == (KLO < 8 ? 1 : (KLO + 7) / 8)) REACH("shortest");
}
/* ---- decoding: exact for every bit pattern, in range or rejected ---- */
void d_con(void) {
    end_stream(72, CB);
    asn1SccSint lo = (asn1SccSint)vin64(), hi = (asn1SccSint)vin64(), v; ASSUME(lo <= hi);
    asn1SccUint range = (asn1SccUint)hi - (asn1SccUint)lo; int k = nb_of(range);
    asn1SccUint W = (asn1SccUint)rval(O, P0, WB), u = k ? W >> (WB - k) : 0;
    flag r = BitStream_DecodeConstraintWholeNumber(&S, &v, lo, hi);
    CHECK(r == (u <= range), "accepted exactly when in range");
    if (r) { CHECK(v == (asn1SccSint)(u + (asn1SccUint)lo), "value"); CHECK(v >= lo && v <= hi, "value in range"); POS(k); }
    SAME_OUTSIDE(0);
    if (r && k == WB) REACH("wide"); if (!r) REACH("reject"); if (r && k == 0) REACH("single");
}
void d_conpos(void) {
    end_stream(72, CB);
    asn1SccUint lo = (asn1SccUint)vin64(), hi = (asn1SccUint)vin64(), v; ASSUME(lo <= hi);
    asn1SccUint range = hi - lo; int k = nb_of(range);
    asn1SccUint W = (asn1SccUint)rval(O, P0, WB), u = k ? W >> (WB - k) : 0;
    flag r = BitStream_DecodeConstraintPosWholeNumber(&S, &v, lo, hi);
    CHECK(r == (u <= range), "accepted exactly when in range");
    if (r) { CHECK(v == u + lo, "value"); CHECK(v >= lo && v <= hi, "value in range"); POS(k); }
    SAME_OUTSIDE(0);
    if (r && k == WB) REACH("wide"); if (!r) REACH("reject"); if (r && k == 0) REACH("single");
}
#define NARROW(name, T, A, V, FN) void name(void) { \
    end_stream(40, CB); T lo = (T)V(), hi = (T)V(), v; ASSUME(lo <= hi); \
    uint32_t range = (uint32_t)hi - (uint32_t)lo; int k = nb_of(range); \
    uint32_t W = (uint32_t)rval(O, P0, 32), u = k ? W >> (32 - k) : 0; \
    flag r = FN(&S, &v, lo, hi); \
    CHECK(r == (u <= range), "accepted exactly when in range"); \
    if (r) { CHECK(v == (T)(u + (uint32_t)lo), "value"); CHECK(v >= lo && v <= hi, "value in range"); POS(k); } \
    if (r && k == 7) REACH("ok"); if (!r) REACH("reject"); }
NARROW(d_i8, int8_t, 8, vin8, BitStream_DecodeConstraintWholeNumberInt8)
NARROW(d_i16, int16_t, 16, vin16, BitStream_DecodeConstraintWholeNumberInt16)
NARROW(d_i32, int32_t, 32, vin32, BitStream_DecodeConstraintWholeNumberInt32)
NARROW(d_u8, uint8_t, 8, vin8, BitStream_DecodeConstraintPosWholeNumberUInt8)
NARROW(d_u16, uint16_t, 16, vin16, BitStream_DecodeConstraintPosWholeNumberUInt16)
NARROW(d_u32, uint32_t, 32, vin32, BitStream_DecodeConstraintPosWholeNumberUInt32)
void d_semi(void) {
    end_stream(80, CB);
    asn1SccSint lo = (asn1SccSint)vin64(), v; int n = (int)rval(O, P0, 8);
    asn1SccUint W = (asn1SccUint)rval(O, P0 + 8, WB), u = n == 0 || n > WORD_SIZE ? 0 : W >> (WB - 8 * n);
    int fits = u <= (asn1SccUint)SMAX - (asn1SccUint)lo;      /* lo + u is representable */
    flag r = BitStream_DecodeSemiConstraintWholeNumber(&S, &v, lo);
    if (n > WORD_SIZE) CHECK(!r, "length too large rejected");
    if (r) { CHECK(v >= lo, "value not below the bound"); CHECK(fits && v == (asn1SccSint)(u + (asn1SccUint)lo), "value"); POS(8 + 8 * n); }
    else CHECK(n == 0 || n > WORD_SIZE || !fits, "representable value accepted");
    if (r && n == WORD_SIZE) REACH("longest"); if (n == WORD_SIZE && !r) REACH("overflow");
}
void d_semipos(void) {
    end_stream(80, CB);
    asn1SccUint lo = (asn1SccUint)vin64(), v; int n = (int)rval(O, P0, 8);
    asn1SccUint W = (asn1SccUint)rval(O, P0 + 8, WB), u = n == 0 || n > WORD_SIZE ? 0 : W >> (WB - 8 * n);
    int fits = u <= WMASK - lo;
    flag r = BitStream_DecodeSemiConstraintPosWholeNumber(&S, &v, lo);
    if (n > WORD_SIZE) CHECK(!r, "length too large rejected");
    if (r) { CHECK(v >= lo, "value not below the bound"); CHECK(fits && v == u + lo, "value"); POS(8 + 8 * n); }
    else CHECK(n == 0 || n > WORD_SIZE || !fits, "representable value accepted");
    if (r && n == WORD_SIZE) REACH("longest"); if (n == WORD_SIZE && !r) REACH("overflow");
}
void d_uncon(void) {
    end_stream(80, CB);
    asn1SccSint v; int n = (int)rval(O, P0, 8);
    asn1SccUint W = (asn1SccUint)rval(O, P0 + 8, WB);
    flag r = BitStream_DecodeUnConstraintWholeNumber(&S, &v);
    if (n > WORD_SIZE) CHECK(!r, "length too large rejected");
    if (n == 0) CHECK(!r, "empty integer rejected");
    if (n >= 1 && n <= WORD_SIZE) {
        CHECK(r, "accepted");
        CHECK(v == ((asn1SccSint)W >> (WB - 8 * n)), "value"); POS(8 + 8 * n);
    }
    if (r && n == WORD_SIZE && v < 0) REACH("longest"); if (r && n == 1 && v == -1) REACH("minus one");
}
