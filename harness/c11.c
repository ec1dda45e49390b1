/* ACN variable-size, BCD and ASCII integers */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#ifndef N
#define N 6                 /* digits */
#endif
#define WB (WORD_SIZE * 8)
#define WMASK ((asn1SccUint)-1)
#define SMAX ((asn1SccSint)(WMASK >> 1))
#define DIG (WORD_SIZE == 8 ? 20 : 10)
#ifndef OKR
#define OKR 1
#endif
#ifdef VHI              /* values near a limit: the bits above the low 8 are fixed */
#define ANYV ((asn1SccUint)(VHI) << 8 | vin8())
#else
#define ANYV ((asn1SccUint)vin64())
#endif
#if OKR
#define ROK REACH("ok")
#else
#define ROK (void)0
#endif
static asn1SccUint pow10u(int n) { asn1SccUint p = 1; while (n-- > 0) p *= 10; return p; }
/* the leading digits may be fixed, to reach the limits of the word with few unknown digits */
#ifndef PFX
#define PFX ""
#endif
static void pfx(long off, int k) {
    const char *d = PFX; int i, j;
    for (i = 0; d[i]; i++) for (j = 0; j < k; j++) {
        long p = P0 + off + (long)k * i + j; int v = (((k == 4 ? d[i] - '0' : d[i]) >> (k - 1 - j)) & 1), m = 0x80 >> (p & 7);
        B[p >> 3] = O[p >> 3] = (byte)(v ? B[p >> 3] | m : B[p >> 3] & ~m);
    }
}
/* number given by n digits of k bits each, first one at p, minus base; sets *bad if one is no digit or it does not fit */
static asn1SccUint digits(const byte *b, long p, int n, int k, int base, int *bad) {
    asn1SccUint v = 0; int i; *bad = 0;
    for (i = 0; i < n; i++) {
        unsigned d = (unsigned)rval(b, p + (long)k * i, k) - (unsigned)base;
        if (d > 9) { *bad = 1; d = 0; }
        if (n >= DIG && i >= DIG - 1 && v > (WMASK - d) / 10) *bad = 1; /* v < 10^i before */
        v = v * 10 + d;
    }
    return v;
}
/* a value of exactly n digits (n = 0: zero) */
static asn1SccUint any_value(int n) { asn1SccUint v = ANYV; ASSUME(n >= DIG || v < pow10u(n)); ASSUME(n == 0 || v >= pow10u(n - 1)); return v; }
static asn1SccUint up_to(int n) { asn1SccUint v = ANYV; ASSUME(n >= DIG || v < pow10u(n)); return v; }
static void check_digits(long at, int n, int k, int base, asn1SccUint v) {
    int bad; asn1SccUint x = digits(B, P0 + at, n, k, base, &bad);
    CHECK(!bad, "digits are digits"); CHECK(x == v, "digits of the number");
}
/* ---- BCD ---- */
void e_bcd(void) { end_stream(4 * N, CB); asn1SccUint v = up_to(N);
    Acn_Enc_Int_BCD_ConstSize(&S, v, N); POS(4 * N); check_digits(0, N, 4, 0, v); SAME_OUTSIDE(4 * N); REACH("end"); }
void e_bcdlen(void) { end_stream(8 + 4 * N, CB); asn1SccUint v = any_value(N);
    Acn_Enc_Int_BCD_VarSize_LengthEmbedded(&S, v); POS(8 + 4 * N); CHECK(rval(B, P0, 8) == N, "count"); check_digits(8, N, 4, 0, v); SAME_OUTSIDE(8 + 4 * N); REACH("end"); }
void e_bcdnul(void) { end_stream(4 + 4 * N, CB); asn1SccUint v = any_value(N);
    Acn_Enc_Int_BCD_VarSize_NullTerminated(&S, v); POS(4 + 4 * N); CHECK(rval(B, P0 + 4 * N, 4) == 15, "terminator"); check_digits(0, N, 4, 0, v); SAME_OUTSIDE(4 + 4 * N); REACH("end"); }
#define DBCD(name, T, call, extra, lenok) void name(void) { end_stream(extra + 4 * N, CB); asn1SccUint x; T v; int bad; \
    pfx(extra, 4); lenok; x = digits(O, P0 + OFF_##name, N, 4, 0, &bad); flag r = call; \
    CHECK(r == (!bad && (asn1SccUint)(T)x == x), "accepted exactly when it is a number that fits"); \
    if (r) { CHECK(v == (T)x, "value"); POS(extra + 4 * N); ROK; } SAME_OUTSIDE(0); if (!r) REACH("reject"); }
#define OFF_d_bcd 0
#define OFF_d_bcd8 0
#define OFF_d_bcd16 0
#define OFF_d_bcd32 0
DBCD(d_bcd, asn1SccUint, Acn_Dec_Int_BCD_ConstSize(&S, &v, N), 0, )
DBCD(d_bcd8, uint8_t, Acn_Dec_Int_BCD_ConstSizeUInt8(&S, &v, N), 0, )
DBCD(d_bcd16, uint16_t, Acn_Dec_Int_BCD_ConstSizeUInt16(&S, &v, N), 0, )
DBCD(d_bcd32, uint32_t, Acn_Dec_Int_BCD_ConstSizeUInt32(&S, &v, N), 0, )
#define LENN ASSUME(rval(O, P0, 8) == N)
#define OFF_d_bcdlen 8
#define OFF_d_bcdlen8 8
#define OFF_d_bcdlen16 8
#define OFF_d_bcdlen32 8
DBCD(d_bcdlen, asn1SccUint, Acn_Dec_Int_BCD_VarSize_LengthEmbedded(&S, &v), 8, LENN)
DBCD(d_bcdlen8, uint8_t, Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(&S, &v), 8, LENN)
DBCD(d_bcdlen16, uint16_t, Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(&S, &v), 8, LENN)
DBCD(d_bcdlen32, uint32_t, Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(&S, &v), 8, LENN)
/* up to N digits then the terminator; anything */
#define DNUL(name, T, FN) void name(void) { end_stream(4 + 4 * N, CB); pfx(0, 4); asn1SccUint x = 0; T v; int bad = 0, i, n; \
    for (n = 0; n <= N; n++) { unsigned d = (unsigned)rval(O, P0 + 4 * n, 4); if (d == 15) break; if (d > 9) bad = 1; \
        if (d > 9 || (n >= DIG - 1 && x > (WMASK - d) / 10)) bad = 1; else if (!bad) x = x * 10 + d; } \
    if (n > N) bad = 1; \
    flag r = FN(&S, &v); (void)i; \
    CHECK(r == (!bad && (asn1SccUint)(T)x == x), "accepted exactly when it is a terminated number that fits"); \
    if (r) { CHECK(v == (T)x, "value"); CHECK(spos(&S) == P0 + 4 + 4 * n, "position"); ROK; } SAME_OUTSIDE(0); if (!r) REACH("reject"); }
DNUL(d_bcdnul, asn1SccUint, Acn_Dec_Int_BCD_VarSize_NullTerminated)
DNUL(d_bcdnul8, uint8_t, Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8)
DNUL(d_bcdnul16, uint16_t, Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16)
DNUL(d_bcdnul32, uint32_t, Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32)
/* ---- ASCII ---- */
#ifndef TN
#define TN 2                /* terminator length */
#endif
static byte T_[TN + 1];
static void term(void) { int i, ok = 0; for (i = 0; i < TN; i++) T_[i] = vin8(); for (i = 0; i < TN; i++) if ((T_[i] < '0' || T_[i] > '9')) ok = 1; ASSUME(T_[0] < '0' || T_[0] > '9'); (void)ok; }
static asn1SccUint mag(asn1SccSint v) { return v < 0 ? (asn1SccUint)0 - (asn1SccUint)v : (asn1SccUint)v; }
static asn1SccSint any_s(int exact) { asn1SccSint v = (asn1SccSint)ANYV; ASSUME(N >= DIG || mag(v) < pow10u(N)); if (exact) ASSUME(N == 1 || mag(v) >= pow10u(N - 1)); return v; }
void e_ua(void) { end_stream(8 * N, CB); asn1SccUint v = up_to(N);
    Acn_Enc_UInt_ASCII_ConstSize(&S, v, N); POS(8 * N); check_digits(0, N, 8, '0', v); SAME_OUTSIDE(8 * N); REACH("end"); }
void e_sa(void) { end_stream(8 + 8 * N, CB); asn1SccSint v = any_s(0);
    Acn_Enc_SInt_ASCII_ConstSize(&S, v, N + 1); POS(8 + 8 * N); CHECK(rval(B, P0, 8) == (v < 0 ? '-' : '+'), "sign"); check_digits(8, N, 8, '0', mag(v)); SAME_OUTSIDE(8 + 8 * N); REACH("end"); }
static asn1SccUint any_u1(void) { asn1SccUint v = ANYV; ASSUME(N >= DIG || v < pow10u(N)); ASSUME(N == 1 || v >= pow10u(N - 1)); return v; }
void e_ualen(void) { end_stream(8 + 8 * N, CB); asn1SccUint v = any_u1();
    Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded(&S, v); POS(8 + 8 * N); CHECK(rval(B, P0, 8) == N, "count"); check_digits(8, N, 8, '0', v); SAME_OUTSIDE(8 + 8 * N); REACH("end"); }
void e_salen(void) { end_stream(16 + 8 * N, CB); asn1SccSint v = any_s(1);
    Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded(&S, v); POS(16 + 8 * N); CHECK(rval(B, P0, 8) == N + 1, "count"); CHECK(rval(B, P0 + 8, 8) == (v < 0 ? '-' : '+'), "sign"); check_digits(16, N, 8, '0', mag(v)); SAME_OUTSIDE(16 + 8 * N); REACH("end"); }
static void chk_term(long at) { int i; for (i = 0; i < TN; i++) CHECK(rval(B, P0 + at + 8 * i, 8) == T_[i], "terminator"); }
void e_uanul(void) { term(); end_stream(8 * TN + 8 * N, CB); asn1SccUint v = any_u1();
    Acn_Enc_UInt_ASCII_VarSize_NullTerminated(&S, v, T_, TN); POS(8 * TN + 8 * N); check_digits(0, N, 8, '0', v); chk_term(8 * N); SAME_OUTSIDE(8 * TN + 8 * N); REACH("end"); }
void e_sanul(void) { term(); end_stream(8 + 8 * TN + 8 * N, CB); asn1SccSint v = any_s(1);
    Acn_Enc_SInt_ASCII_VarSize_NullTerminated(&S, v, T_, TN); POS(8 + 8 * TN + 8 * N); CHECK(rval(B, P0, 8) == (v < 0 ? '-' : '+'), "sign"); check_digits(8, N, 8, '0', mag(v)); chk_term(8 + 8 * N); SAME_OUTSIDE(8 + 8 * TN + 8 * N); REACH("end"); }
/* sign at p (or none), n digits: 0 = not a number, else value */
static int snum(long p, int n, asn1SccSint *v) {
    int bad, c = (int)rval(O, p, 8); asn1SccUint x = digits(O, p + 8, n, 8, '0', &bad);
    if (bad || (c != '+' && c != '-')) return 0;
    if (c == '-' ? x > (asn1SccUint)SMAX + 1 : x > (asn1SccUint)SMAX) return 0;
    *v = c == '-' ? (asn1SccSint)(0 - x) : (asn1SccSint)x; return 1;
}
#define DU(name, T, call, off) void name(void) { end_stream(off + 8 * N, CB); pfx(off, 8); asn1SccUint x; T v; int bad; \
    if (off) LENN; x = digits(O, P0 + off, N, 8, '0', &bad); flag r = call; \
    CHECK(r == (!bad && (asn1SccUint)(T)x == x), "accepted exactly when it is a number that fits"); \
    if (r) { CHECK(v == (T)x, "value"); POS(off + 8 * N); ROK; } SAME_OUTSIDE(0); if (!r) REACH("reject"); }
#define DS(name, T, call, off) void name(void) { end_stream(off + 8 + 8 * N, CB); pfx(off + 8, 8); asn1SccSint x = 0; T v; \
    if (off) ASSUME(rval(O, P0, 8) == N + 1); int ok = snum(P0 + off, N, &x); flag r = call; \
    CHECK(r == (ok && (asn1SccSint)(T)x == x), "accepted exactly when it is a number that fits"); \
    if (r) { CHECK(v == (T)x, "value"); POS(off + 8 + 8 * N); if (v < 0) ROK; } SAME_OUTSIDE(0); if (!r) REACH("reject"); }
DU(d_ua, asn1SccUint, Acn_Dec_UInt_ASCII_ConstSize(&S, &v, N), 0)
DU(d_ua8, uint8_t, Acn_Dec_UInt_ASCII_ConstSizeUInt8(&S, &v, N), 0)
DU(d_ua16, uint16_t, Acn_Dec_UInt_ASCII_ConstSizeUInt16(&S, &v, N), 0)
DU(d_ua32, uint32_t, Acn_Dec_UInt_ASCII_ConstSizeUInt32(&S, &v, N), 0)
DU(d_ualen, asn1SccUint, Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(&S, &v), 8)
DU(d_ualen8, uint8_t, Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(&S, &v), 8)
DU(d_ualen16, uint16_t, Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(&S, &v), 8)
DU(d_ualen32, uint32_t, Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(&S, &v), 8)
DS(d_sa, asn1SccSint, Acn_Dec_SInt_ASCII_ConstSize(&S, &v, N + 1), 0)
DS(d_sa8, int8_t, Acn_Dec_SInt_ASCII_ConstSizeInt8(&S, &v, N + 1), 0)
DS(d_sa16, int16_t, Acn_Dec_SInt_ASCII_ConstSizeInt16(&S, &v, N + 1), 0)
DS(d_sa32, int32_t, Acn_Dec_SInt_ASCII_ConstSizeInt32(&S, &v, N + 1), 0)
DS(d_salen, asn1SccSint, Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(&S, &v), 8)
DS(d_salen8, int8_t, Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(&S, &v), 8)
DS(d_salen16, int16_t, Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(&S, &v), 8)
DS(d_salen32, int32_t, Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(&S, &v), 8)
/* n digits, then the first occurrence of the terminator; everything else arbitrary */
static int find_term(long p, int *n) { int i, j, m;
    for (i = 0; i <= N; i++) { m = 1; for (j = 0; j < TN; j++) if (rval(O, p + 8 * (i + j), 8) != T_[j]) m = 0; if (m) { *n = i; return 1; } }
    return 0; }
static asn1SccUint digits_sym(long p, int n, int *bad) { asn1SccUint v = 0; int i; *bad = 0;
    for (i = 0; i < N; i++) if (i < n) { unsigned d = (unsigned)rval(O, p + 8 * i, 8) - '0'; if (d > 9 || (i >= DIG - 1 && v > (WMASK - d) / 10)) *bad = 1; v = v * 10 + d; }
    return v; }
#define DUN(name, T, FN) void name(void) { term(); end_stream(8 * TN + 8 * N, CB); pfx(0, 8); asn1SccUint x = 0; T v; int bad = 0, n = 0, ok = find_term(P0, &n); \
    if (ok) x = digits_sym(P0, n, &bad); flag r = FN(&S, &v, T_, TN); \
    CHECK(r == (ok && !bad && (asn1SccUint)(T)x == x), "accepted exactly when it is a terminated number that fits"); \
    if (r) { CHECK(v == (T)x, "value"); CHECK(spos(&S) == P0 + 8 * TN + 8 * n, "position"); if (n == (sizeof(T) == 1 ? 3 : sizeof(T) == 2 ? 5 : sizeof(T) == 4 ? 10 : N > 20 ? 20 : N)) ROK; } SAME_OUTSIDE(0); if (!r) REACH("reject"); }
DUN(d_uanul, asn1SccUint, Acn_Dec_UInt_ASCII_VarSize_NullTerminated)
DUN(d_uanul8, uint8_t, Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8)
DUN(d_uanul16, uint16_t, Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16)
DUN(d_uanul32, uint32_t, Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32)
#define DSN(name, T, FN) void name(void) { term(); end_stream(8 + 8 * TN + 8 * N, CB); pfx(8, 8); asn1SccUint u = 0; asn1SccSint x = 0; T v; int bad = 0, n = 0, ok = find_term(P0 + 8, &n), c = (int)rval(O, P0, 8); \
    if (ok) u = digits_sym(P0 + 8, n, &bad); if (c != '+' && c != '-') ok = 0; \
    if (c == '-' ? u > (asn1SccUint)SMAX + 1 : u > (asn1SccUint)SMAX) ok = 0; x = c == '-' ? (asn1SccSint)(0 - u) : (asn1SccSint)u; \
    flag r = FN(&S, &v, T_, TN); \
    CHECK(r == (ok && !bad && (asn1SccSint)(T)x == x), "accepted exactly when it is a terminated number that fits"); \
    if (r) { CHECK(v == (T)x, "value"); CHECK(spos(&S) == P0 + 8 + 8 * TN + 8 * n, "position"); if (c == '-' && n == (sizeof(T) == 1 ? 3 : sizeof(T) == 2 ? 5 : sizeof(T) == 4 ? 10 : N > 20 ? 20 : N)) ROK; } SAME_OUTSIDE(0); if (!r) REACH("reject"); }
DSN(d_sanul, asn1SccSint, Acn_Dec_SInt_ASCII_VarSize_NullTerminated)
DSN(d_sanul8, int8_t, Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8)
DSN(d_sanul16, int16_t, Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16)
DSN(d_sanul32, int32_t, Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32)
/* ---- length-embedded binary ---- */
static int ubytes(asn1SccUint v) { int n = (nb_of(v) + 7) / 8; return n ? n : 1; }
static int sbytes(asn1SccSint v) { int n; for (n = 1; n < WORD_SIZE; n++) { asn1SccSint l = (asn1SccSint)1 << (n * 8 - 1); if (v >= -l && v < l) return n; } return WORD_SIZE; }
static void lenc(int n, asn1SccUint v) {
    asn1SccUint W = (asn1SccUint)rval(B, P0 + 8, WB), W0 = (asn1SccUint)rval(O, P0 + 8, WB), lowm = n == WORD_SIZE ? 0 : WMASK >> (8 * n);
    CHECK(rval(B, P0, 8) == (uint64_t)n, "length octet"); POS(8 + 8 * n);
    CHECK(W >> (WB - 8 * n) == (v & (WMASK >> (WB - 8 * n))), "content"); CHECK(((W ^ W0) & lowm) == 0, "bits after"); SAME_OUTSIDE(8 + WB);
}
void e_uvar(void) { end_stream(80, CB); asn1SccUint v = (asn1SccUint)vin64(); Acn_Enc_Int_PositiveInteger_VarSize_LengthEmbedded(&S, v); lenc(ubytes(v), v); if (ubytes(v) == WORD_SIZE) REACH("end"); }
void e_svar(void) { end_stream(80, CB); asn1SccSint v = (asn1SccSint)vin64(); Acn_Enc_Int_TwosComplement_VarSize_LengthEmbedded(&S, v); lenc(sbytes(v), (asn1SccUint)v); if (sbytes(v) == WORD_SIZE && v < 0) REACH("end"); }
#define DV(name, T, FN, sg) void name(void) { end_stream(80, CB); T v; int n = (int)rval(O, P0, 8); asn1SccUint W = (asn1SccUint)rval(O, P0 + 8, WB); \
    flag r = FN(&S, &v); if (n > WORD_SIZE) CHECK(!r, "too long rejected"); \
    if (n >= 1 && n <= WORD_SIZE) { asn1SccUint u = W >> (WB - 8 * n); asn1SccSint s = (asn1SccSint)W >> (WB - 8 * n); \
      CHECK(r == (sg ? (asn1SccSint)(T)s == s : (asn1SccUint)(T)u == u), "accepted exactly when it fits"); \
      if (r) { CHECK(v == (sg ? (T)s : (T)u), "value"); POS(8 + 8 * n); if (n == WORD_SIZE) ROK; } } SAME_OUTSIDE(0); if (!r) REACH("reject"); }
DV(d_uvar, asn1SccUint, Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded, 0)
DV(d_uvar8, uint8_t, Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8, 0)
DV(d_uvar16, uint16_t, Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16, 0)
DV(d_uvar32, uint32_t, Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32, 0)
DV(d_svar, asn1SccSint, Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded, 1)
DV(d_svar8, int8_t, Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8, 1)
DV(d_svar16, int16_t, Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16, 1)
DV(d_svar32, int32_t, Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32, 1)
