/* ACN IEEE 754 reals: the encoding is the bit image in the declared byte order */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
typedef union { float f; uint32_t u; } F;
typedef union { double d; uint64_t u; } D;
static uint64_t swapn(uint64_t v, int n) { uint64_t r = 0; int i; for (i = 0; i < n; i++) r = r << 8 | ((v >> (8 * i)) & 0xFF); return r; }
static int nan32(uint32_t u) { return (u & 0x7F800000u) == 0x7F800000u && (u & 0x7FFFFFu); }
static int nan64(uint64_t u) { return (u & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL && (u & 0xFFFFFFFFFFFFFULL); }
static uint64_t ofd(double d) { D x; x.d = d; return x.u; }
static uint32_t off(float f) { F x; x.f = f; return x.u; }
#define ONCE(c, m) if (c) REACH(m)
static void e32(int le) {
    F x; x.u = vin32(); asn1Real r = x.f; uint64_t w;
    end_stream(32, CB);
    if (le) Acn_Enc_Real_IEEE754_32_little_endian(&S, r); else Acn_Enc_Real_IEEE754_32_big_endian(&S, r);
    POS(32); SAME_OUTSIDE(32);
    w = rval(B, P0, 32); if (le) w = swapn(w, 4);
    if (nan32(x.u)) CHECK(nan32((uint32_t)w), "a NaN stays a NaN"); else CHECK(w == x.u, "bit image");
    if (x.u == 0x80000000u) REACH("minus zero"); if (x.u == 1) REACH("subnormal"); 
}
void e32be(void) { e32(0); }
void e32le(void) { e32(1); }
static void e64(int le) {
    D x; uint64_t w; asn1Real r;
#if FP_WORD_SIZE == 4
    F y; y.u = vin32(); ASSUME(!nan32(y.u)); r = y.f; x.d = y.f;
#else
    x.u = vin64(); r = x.d;
#endif
    end_stream(64, CB);
    if (le) Acn_Enc_Real_IEEE754_64_little_endian(&S, r); else Acn_Enc_Real_IEEE754_64_big_endian(&S, r);
    POS(64); SAME_OUTSIDE(64);
    w = rval(B, P0, 64); if (le) w = swapn(w, 8);
    if (nan64(x.u)) CHECK(nan64(w), "a NaN stays a NaN"); else CHECK(w == x.u, "bit image");
    if (x.u == 0x8000000000000000ULL) REACH("minus zero"); if (x.u == 0x4009000000000000ULL) REACH("value");
}
void e64be(void) { e64(0); }
void e64le(void) { e64(1); }
static void d32(int le) {
    end_stream(32, CB); asn1Real r; float f; uint32_t w = (uint32_t)rval(O, P0, 32); F x; flag ok;
    if (le) w = (uint32_t)swapn(w, 4);
    x.u = w;
    ok = le ? Acn_Dec_Real_IEEE754_32_little_endian(&S, &r) : Acn_Dec_Real_IEEE754_32_big_endian(&S, &r);
    CHECK(ok, "accepted"); POS(32); SAME_OUTSIDE(0);
    if (nan32(w)) CHECK(r != r, "a NaN stays a NaN"); else CHECK(ofd(r) == ofd(x.f), "value");
    setpos(&S, P0);
    ok = le ? Acn_Dec_Real_IEEE754_32_little_endian_fp32(&S, &f) : Acn_Dec_Real_IEEE754_32_big_endian_fp32(&S, &f);
    CHECK(ok, "accepted"); POS(32); SAME_OUTSIDE(0);
    if (nan32(w)) CHECK(f != f, "a NaN stays a NaN"); else CHECK(off(f) == w, "value");
    if (w == 0x80000000u) REACH("minus zero"); if (w == 1) REACH("subnormal");
}
void d32be(void) { d32(0); }
void d32le(void) { d32(1); }
static void d64(int le) {
    end_stream(64, CB); asn1Real r; uint64_t w = rval(O, P0, 64); D x; flag ok;
    if (le) w = swapn(w, 8);
    x.u = w;
    ok = le ? Acn_Dec_Real_IEEE754_64_little_endian(&S, &r) : Acn_Dec_Real_IEEE754_64_big_endian(&S, &r);
    CHECK(ok, "accepted"); POS(64); SAME_OUTSIDE(0);
    if (nan64(w)) CHECK(r != r, "a NaN stays a NaN"); else CHECK(r == (asn1Real)x.d && ((r < 0 || 1 / r < 0) == (x.u >> 63)), "value");
    if (w == 0x8000000000000000ULL) REACH("minus zero"); if (w == 0x4009000000000000ULL) REACH("value");
}
void d64be(void) { d64(0); }
void d64le(void) { d64(1); }
