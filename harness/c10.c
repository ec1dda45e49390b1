/* ACN fixed-size integers: exact layout, exact decoding, truncation */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#ifndef KLO
#define KLO 1
#endif
#ifndef KHI
#define KHI (WORD_SIZE * 8)
#endif
#ifndef NEG
#define NEG 2
#endif
#define WB (WORD_SIZE * 8)
#define WMASK ((asn1SccUint)-1)
static asn1SccUint low(int k) { return k == 0 ? 0 : k >= WB ? WMASK : WMASK >> (WB - k); }
static asn1SccSint sext(asn1SccUint u, int k) { return k >= WB ? (asn1SccSint)u : (u >> (k - 1)) & 1 ? (asn1SccSint)(u | ~low(k)) : (asn1SccSint)u; }
static void field(int k, asn1SccUint v) {
    asn1SccUint W = (asn1SccUint)rval(B, P0, WB), W0 = (asn1SccUint)rval(O, P0, WB);
    CHECK(W >> (WB - k) == v, "encoded bits");
    CHECK(((W ^ W0) & low(WB - k)) == 0, "bits after the encoding changed");
    SAME_OUTSIDE(WB);
}
/* size in bits symbolic */
void e_pos(void) {
    int k = (int)vin_range(KLO, KHI); asn1SccUint v = (asn1SccUint)vin64(); ASSUME((v & ~low(k)) == 0);
    end_stream(72, CB);
    Acn_Enc_Int_PositiveInteger_ConstSize(&S, v, k); POS(k); field(k, v);
    if (k == KHI) REACH("wide"); if (k == KLO && v == 1) REACH("narrow");
}
void e_twos(void) {
    int k = (int)vin_range(KLO, KHI); asn1SccSint v = (asn1SccSint)vin64(); if (NEG < 2) ASSUME((v < 0) == NEG); ASSUME(sext((asn1SccUint)v & low(k), k) == v);
    end_stream(72, CB);
    Acn_Enc_Int_TwosComplement_ConstSize(&S, v, k); POS(k); field(k, (asn1SccUint)v & low(k));
    if (k == KHI) REACH("wide"); if (k == KLO) REACH("narrow");
}
static void d_pos1(int k) {
    end_stream(k, CB); asn1SccUint v;
    flag r = Acn_Dec_Int_PositiveInteger_ConstSize(&S, &v, k);
    CHECK(r, "accepted"); CHECK(v == (asn1SccUint)rval(O, P0, k), "value"); POS(k); SAME_OUTSIDE(0);
    if (k == KHI) REACH("end");
}
void d_pos(void) { SPLIT(k, 1, WB, d_pos1(k)); }
static void d_twos1(int k) {
    end_stream(k, CB); asn1SccSint v;
    flag r = Acn_Dec_Int_TwosComplement_ConstSize(&S, &v, k);
    CHECK(r, "accepted"); CHECK(v == sext((asn1SccUint)rval(O, P0, k), k), "value"); POS(k); SAME_OUTSIDE(0);
    if (k == KHI) REACH("end");
}
void d_twos(void) { SPLIT(k, 1, WB, d_twos1(k)); }
static asn1SccUint swapu(uint64_t v, int n) { uint64_t r = 0; int i; for (i = 0; i < n; i++) r = r << 8 | ((v >> (8 * i)) & 0xFF); return (asn1SccUint)r; }
static uint64_t swap64(uint64_t v, int n) { uint64_t r = 0; int i; for (i = 0; i < n; i++) r = r << 8 | ((v >> (8 * i)) & 0xFF); return r; }
#define BYTES(n) ((n) < WORD_SIZE ? (n) : WORD_SIZE)
/* fixed n-byte field; the value sign- or zero-extended to n bytes */
#define EFIX(name, FN, n, le, sg) static void name##1(int cb) { \
    end_stream(8 * n, cb); asn1SccUint v = (asn1SccUint)vin64(); \
    if (sg) ASSUME(sext(v & low(8 * n), 8 * n) == (asn1SccSint)v); else ASSUME((v & ~low(8 * n)) == 0); \
    uint64_t x = sg ? (uint64_t)(int64_t)(asn1SccSint)v : (uint64_t)v; if (n < 8) x &= ((uint64_t)1 << (8 * (n & 7))) - 1; \
    FN(&S, v); POS(8 * n); \
    CHECK(rval(B, P0, 8 * n) == (le ? swap64(x, n) : x), "encoded bytes"); SAME_OUTSIDE(8 * n); \
    if (cb == 5) REACH("end"); } \
    void name(void) { SPLIT(cb, 0, 7, name##1(cb)); }
#define DFIX(name, FN, n, le, sg, T) static void name##1(int cb) { \
    end_stream(8 * n, cb); T v; uint64_t x = rval(O, P0, 8 * n); if (le) x = swap64(x, n); \
    flag r = FN(&S, &v); \
    int fits = sg ? sizeof(T) >= n || ((int64_t)(T)x == (int64_t)(n == 8 ? x : (uint64_t)((int64_t)(x << (64 - 8 * n)) >> (64 - 8 * n)))) : (uint64_t)(T)x == x; \
    if (sg && n < 8) x = (uint64_t)((int64_t)(x << (64 - 8 * n)) >> (64 - 8 * n)); \
    CHECK(r == fits, "accepted exactly when the value fits"); \
    if (r) { CHECK(v == (T)x, "value"); POS(8 * n); } SAME_OUTSIDE(0); \
    if (cb == 5 && r) REACH("end"); } \
    void name(void) { SPLIT(cb, 0, 7, name##1(cb)); }
#define P(x) Acn_Enc_Int_PositiveInteger_ConstSize_##x
#define T2(x) Acn_Enc_Int_TwosComplement_ConstSize_##x
#define PD(x) Acn_Dec_Int_PositiveInteger_ConstSize_##x
#define TD(x) Acn_Dec_Int_TwosComplement_ConstSize_##x
EFIX(e_p8, P(8), 1, 0, 0) EFIX(e_pb16, P(big_endian_16), 2, 0, 0) EFIX(e_pb32, P(big_endian_32), 4, 0, 0) EFIX(e_pb64, P(big_endian_64), 8, 0, 0)
EFIX(e_pl16, P(little_endian_16), 2, 1, 0) EFIX(e_pl32, P(little_endian_32), 4, 1, 0) EFIX(e_pl64, P(little_endian_64), 8, 1, 0)
EFIX(e_t8, T2(8), 1, 0, 1) EFIX(e_tb16, T2(big_endian_16), 2, 0, 1) EFIX(e_tb32, T2(big_endian_32), 4, 0, 1) EFIX(e_tb64, T2(big_endian_64), 8, 0, 1)
EFIX(e_tl16, T2(little_endian_16), 2, 1, 1) EFIX(e_tl32, T2(little_endian_32), 4, 1, 1) EFIX(e_tl64, T2(little_endian_64), 8, 1, 1)
DFIX(d_p8, PD(8), 1, 0, 0, asn1SccUint) DFIX(d_pb16, PD(big_endian_16), 2, 0, 0, asn1SccUint) DFIX(d_pb32, PD(big_endian_32), 4, 0, 0, asn1SccUint) DFIX(d_pb64, PD(big_endian_64), 8, 0, 0, asn1SccUint)
DFIX(d_pl16, PD(little_endian_16), 2, 1, 0, asn1SccUint) DFIX(d_pl32, PD(little_endian_32), 4, 1, 0, asn1SccUint) DFIX(d_pl64, PD(little_endian_64), 8, 1, 0, asn1SccUint)
DFIX(d_t8, TD(8), 1, 0, 1, asn1SccSint) DFIX(d_tb16, TD(big_endian_16), 2, 0, 1, asn1SccSint) DFIX(d_tb32, TD(big_endian_32), 4, 0, 1, asn1SccSint) DFIX(d_tb64, TD(big_endian_64), 8, 0, 1, asn1SccSint)
DFIX(d_tl16, TD(little_endian_16), 2, 1, 1, asn1SccSint) DFIX(d_tl32, TD(little_endian_32), 4, 1, 1, asn1SccSint) DFIX(d_tl64, TD(little_endian_64), 8, 1, 1, asn1SccSint)
/* narrow destinations */
DFIX(n_p8_8, PD(8UInt8), 1, 0, 0, uint8_t)
DFIX(n_pb16_16, PD(big_endian_16UInt16), 2, 0, 0, uint16_t) DFIX(n_pb16_8, PD(big_endian_16UInt8), 2, 0, 0, uint8_t)
DFIX(n_pb32_32, PD(big_endian_32UInt32), 4, 0, 0, uint32_t) DFIX(n_pb32_16, PD(big_endian_32UInt16), 4, 0, 0, uint16_t) DFIX(n_pb32_8, PD(big_endian_32UInt8), 4, 0, 0, uint8_t)
DFIX(n_pb64_32, PD(big_endian_64UInt32), 8, 0, 0, uint32_t) DFIX(n_pb64_16, PD(big_endian_64UInt16), 8, 0, 0, uint16_t) DFIX(n_pb64_8, PD(big_endian_64UInt8), 8, 0, 0, uint8_t)
DFIX(n_pl16_16, PD(little_endian_16UInt16), 2, 1, 0, uint16_t) DFIX(n_pl16_8, PD(little_endian_16UInt8), 2, 1, 0, uint8_t)
DFIX(n_pl32_32, PD(little_endian_32UInt32), 4, 1, 0, uint32_t) DFIX(n_pl32_16, PD(little_endian_32UInt16), 4, 1, 0, uint16_t) DFIX(n_pl32_8, PD(little_endian_32UInt8), 4, 1, 0, uint8_t)
DFIX(n_pl64_32, PD(little_endian_64UInt32), 8, 1, 0, uint32_t) DFIX(n_pl64_16, PD(little_endian_64UInt16), 8, 1, 0, uint16_t) DFIX(n_pl64_8, PD(little_endian_64UInt8), 8, 1, 0, uint8_t)
DFIX(n_t8_8, TD(8Int8), 1, 0, 1, int8_t)
DFIX(n_tb16_16, TD(big_endian_16Int16), 2, 0, 1, int16_t) DFIX(n_tb16_8, TD(big_endian_16Int8), 2, 0, 1, int8_t)
DFIX(n_tb32_32, TD(big_endian_32Int32), 4, 0, 1, int32_t) DFIX(n_tb32_16, TD(big_endian_32Int16), 4, 0, 1, int16_t) DFIX(n_tb32_8, TD(big_endian_32Int8), 4, 0, 1, int8_t)
DFIX(n_tb64_32, TD(big_endian_64Int32), 8, 0, 1, int32_t) DFIX(n_tb64_16, TD(big_endian_64Int16), 8, 0, 1, int16_t) DFIX(n_tb64_8, TD(big_endian_64Int8), 8, 0, 1, int8_t)
DFIX(n_tl16_16, TD(little_endian_16Int16), 2, 1, 1, int16_t) DFIX(n_tl16_8, TD(little_endian_16Int8), 2, 1, 1, int8_t)
DFIX(n_tl32_32, TD(little_endian_32Int32), 4, 1, 1, int32_t) DFIX(n_tl32_16, TD(little_endian_32Int16), 4, 1, 1, int16_t) DFIX(n_tl32_8, TD(little_endian_32Int8), 4, 1, 1, int8_t)
DFIX(n_tl64_32, TD(little_endian_64Int32), 8, 1, 1, int32_t) DFIX(n_tl64_16, TD(little_endian_64Int16), 8, 1, 1, int16_t) DFIX(n_tl64_8, TD(little_endian_64Int8), 8, 1, 1, int8_t)
/* declared size wider than the destination */
#define NCON(name, FN, T, sg) static void name##1(int k) { \
    end_stream(k, CB); T v; asn1SccUint u = (asn1SccUint)rval(O, P0, k); \
    flag r = FN(&S, &v, k); \
    if (sg) { asn1SccSint x = sext(u, k); CHECK(r == ((asn1SccSint)(T)x == x), "accepted exactly when the value fits"); if (r) CHECK(v == (T)x, "value"); } \
    else { CHECK(r == ((asn1SccUint)(T)u == u), "accepted exactly when the value fits"); if (r) CHECK(v == (T)u, "value"); } \
    if (r) POS(k); if (r && k == WB) REACH("end"); } \
    void name(void) { SPLIT(k, 1, WB, name##1(k)); }
NCON(n_c_u8, Acn_Dec_Int_PositiveInteger_ConstSizeUInt8, uint8_t, 0) NCON(n_c_u16, Acn_Dec_Int_PositiveInteger_ConstSizeUInt16, uint16_t, 0) NCON(n_c_u32, Acn_Dec_Int_PositiveInteger_ConstSizeUInt32, uint32_t, 0)
NCON(n_c_i8, Acn_Dec_Int_TwosComplement_ConstSizeInt8, int8_t, 1) NCON(n_c_i16, Acn_Dec_Int_TwosComplement_ConstSizeInt16, int16_t, 1) NCON(n_c_i32, Acn_Dec_Int_TwosComplement_ConstSizeInt32, int32_t, 1)
/* length fields */
static void len1(int k) {
    end_stream(k, CB); asn1SccUint v; flag r = Acn_Dec_Length(&S, &v, k);
    CHECK(r && v == (asn1SccUint)rval(O, P0, k), "length field"); POS(k); if (k == 20) REACH("end");
}
void d_len(void) { SPLIT(k, 1, WB, len1(k)); }
void e_len(void) {
    int k = (int)vin_range(1, 32); asn1SccUint v = (asn1SccUint)vin32(); ASSUME((v & ~low(k)) == 0);
    end_stream(72, CB);
    Acn_Enc_Length(&S, v, k); POS(k); field(k, v); if (k == 20) REACH("end");
}
