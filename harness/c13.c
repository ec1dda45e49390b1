/* ACN booleans with patterns, and bit fields ended by a pattern */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#ifndef KMAX
#define KMAX 20
#endif
static byte T[4], F[4];
static int zpad(const byte *p, int k) { return k % 8 == 0 || (p[k / 8] & (0xFF >> (k % 8))) == 0; }
static void pats(int k) {
    int i;
    for (i = 0; i < 4; i++) { T[i] = vin8(); F[i] = vin8(); }
    (void)k;
}
static void enc1(int k) {       /* as the generated code writes them */
    pats(k); end_stream(k, CB); byte v = vin8() & 1;
    BitStream_AppendBits(&S, v ? T : F, k); POS(k); SAME_OUTSIDE(k);
    CHECK(rval(B, P0, k) == rval(v ? T : F, 0, k), "pattern written");
    if (k == KMAX) REACH("end");
}
void enc(void) { SPLIT(k, 1, KMAX, enc1(k)); }
static void tf1(int k) {
    pats(k); end_stream(k, CB); flag v = 0; uint64_t w = rval(O, P0, k), t = rval(T, 0, k), f = rval(F, 0, k);
    ASSUME(t != f);
    flag r = BitStream_DecodeTrueFalseBoolean(&S, T, F, k, &v);
    CHECK(r == (w == t || w == f), "accepted exactly when one of the patterns is there");
    if (r) { CHECK(!!v == (w == t), "value"); POS(k); }
    SAME_OUTSIDE(0);
    if (k == KMAX && r && v) REACH("true"); if (k == KMAX && r && !v) REACH("false"); if (k == KMAX && !r) REACH("neither");
}
void tf(void) { SPLIT(k, 1, KMAX, tf1(k)); }
static void one1(int k) {
    pats(k); end_stream(k, CB); flag v = 0; uint64_t w = rval(O, P0, k), t = rval(T, 0, k);
    flag r = BitStream_ReadBitPattern(&S, T, k, &v);
    CHECK(r, "accepted"); CHECK(!!v == (w == t), "true exactly when the pattern is there"); POS(k); SAME_OUTSIDE(0);
    if (k == KMAX && v) REACH("true"); if (k == KMAX && !v) REACH("false");
    setpos(&S, P0); r = BitStream_ReadBitPattern_ignore_value(&S, k); CHECK(r, "accepted"); POS(k); SAME_OUTSIDE(0);
}
void one(void) { SPLIT(k, 1, KMAX, one1(k)); }
static void peek1(int k) {      /* pattern with zero padding, as generated */
    int room = 8 * (int)(NB - 1); 
    pats(k); ASSUME(zpad(T, k)); end_stream(k, CB); uint64_t w = rval(O, P0, k), t = rval(T, 0, k);
    int r = BitStream_checkBitPatternPresent(&S, T, (size_t)k);
    CHECK(r == (w == t ? 2 : 1), "present or not"); POS(r == 2 ? k : 0); SAME_OUTSIDE(0); (void)room;
    if (k == KMAX && r == 2) REACH("present"); if (k == KMAX && r == 1) REACH("absent");
    setpos(&S, NB * 8 - k + 1); ASSUME(k > 1 || 1);
    CHECK(BitStream_checkBitPatternPresent(&S, T, (size_t)k) == 0 && spos(&S) == NB * 8 - k + 1, "too few bits left");
}
void peek(void) { SPLIT(k, 1, KMAX, peek1(k)); }
/* bit field of at most MX bits ended by a pattern of K bits; LEFT bits are left in the input */
#ifdef MX
static void nt1(int k) {
    byte D[(MX + 7) / 8 + 1], G = vin8(); int n = -1, i, e = -1; 
    for (i = 0; i < (int)sizeof D; i++) D[i] = G;
    pats(k); ASSUME(zpad(T, k)); end_stream(LEFT, CB);
    long left = NB * 8 - P0;
    for (i = MX; i >= 0; i--) if (i + k <= left && rval(O, P0 + i, k) == rval(T, 0, k)) e = i;
    flag r = BitStream_ReadBits_nullterminated(&S, T, (size_t)k, D, MX, &n);
    CHECK(!!r == (e >= 0), "accepted exactly when the terminator follows at most the maximum number of bits");
    if (r) {
        CHECK(n == e, "number of bits"); POS(n + k);
        for (i = 0; i < MX; i++) CHECK(rbit(D, i) == (i < e ? rbit(O, P0 + i) : 0), "content");
    }
    CHECK(D[(MX + 7) / 8] == G, "a byte beyond the destination changed");
    CHECK(spos(&S) <= NB * 8, "position beyond the input");
    SAME_OUTSIDE(0);
    if (!r) REACH("refused");
#if LEFT >= K
    if (r && n == 0) REACH("empty");
#endif
#if MX > 0 && LEFT > K
    if (r && n > 0) REACH("some");
#endif
}
void nt(void) { nt1(K); }
#endif
