/* REAL in uPER */
#include "rtl.h"
#include <math.h>
#ifndef CB
#define CB 0
#endif
typedef union { double d; uint64_t u; } DU;
typedef union { float f; uint32_t u; } FU;
#if FP_WORD_SIZE == 8
typedef DU AU; typedef uint64_t au_t;
#define AV u
#define A(x) (x).d
#define MB 52
#define EMAX 0x7FF
#define BIAS 1023
#define AVIN vin64
#else
typedef FU AU; typedef uint32_t au_t;
#define A(x) (x).f
#define MB 23
#define EMAX 0xFF
#define BIAS 127
#define AVIN vin32
#endif
#define MM ((((au_t)1) << MB) - 1)
/* the number n * 2^e, n < 2^(MB+1), as bits; *exact tells whether it is representable */
static au_t mk(int neg, uint64_t n, long e, int *exact) {
    au_t s = (au_t)neg << (sizeof(au_t) * 8 - 1); int m = 0, i; long x;
    *exact = 1;
    if (!n) return s;
    for (i = 0; i <= MB; i++) if (n >> i & 1) m = i;
    x = e + m;                                   /* n*2^e = 1.xxx * 2^x */
    if (x > BIAS) { *exact = 0; return s; }
    if (x >= 1 - BIAS) return s | (au_t)(x + BIAS) << MB | ((au_t)(n << (MB - m)) & MM);
    /* subnormal: n * 2^e = f * 2^(1-BIAS-MB) */
    x = e - (1 - BIAS - MB);
    if (x >= 0) return s | (au_t)(n << x);
    if (x < -63 || (n & (((uint64_t)1 << -x) - 1))) { *exact = 0; return s; }
    return s | (au_t)(n >> -x);
}
/* encode and decode: exponent field EL..EH, fraction at most FW bits long and at least FL */
#ifdef EL
void rt(void) {
    AU v, w; v.u = AVIN(); w.u = AVIN(); int ef = (int)(v.u >> MB) & EMAX, i;
    ASSUME(ef >= EL && ef <= EH);
#ifdef FH
    ASSUME((v.u & MM) >= (au_t)FL && (v.u & MM) <= (au_t)FH);
#endif
    end_stream(8 * (2 + 2 + 7), CB);
    BitStream_EncodeReal(&S, A(v)); long p1 = spos(&S);
    CHECK(p1 <= NB * 8, "position inside");
    CHECK(p1 == P0 + 8 + 8 * (long)rval(B, P0, 8), "as long as the length octet says");
    for (i = 0; i < NB; i++) if (8 * i + 8 <= P0) CHECK(B[i] == O[i], "a bit before the field changed");
    setpos(&S, P0);
    flag r = BitStream_DecodeReal(&S, &A(w));
    CHECK(r, "accepted"); CHECK(spos(&S) == p1, "all of it read");
    if (ef == EMAX && (v.u & MM)) CHECK(isnan(A(w)), "NaN"); else CHECK(v.u == w.u, "same number");
    if (ef == EL) REACH("low"); if (ef == EH) REACH("high");
}
/* the octets are those X.690 8.5 defines: sign, exponent, mantissa */
void enc(void) {
    AU v; v.u = AVIN(); int ef = (int)(v.u >> MB) & EMAX, n, el, x, ok; uint64_t m;
    ASSUME(ef >= EL && ef <= EH && ef < EMAX);
#ifdef FH
    ASSUME((v.u & MM) >= (au_t)FL && (v.u & MM) <= (au_t)FH);
#endif
    ASSUME(ef || (v.u & MM));
    end_stream(8 * (2 + 2 + 7), CB);
    BitStream_EncodeReal(&S, A(v)); byte E[11]; for (n = 0; n < 11; n++) E[n] = (byte)rval(B, P0 + 8 * n, 8);
    CHECK(E[0] >= 3 && (E[1] & 0xBC) == 0x80, "binary, base 2, no scale"); CHECK((E[1] >> 6 & 1) == (int)(v.u >> (sizeof(au_t) * 8 - 1)), "sign");
    el = 1 + (E[1] & 3); CHECK(el <= 2, "exponent of 1 or 2 octets"); x = (int8_t)E[2]; if (el == 2) x = (int16_t)(E[2] << 8 | E[3]);
    m = 0; for (n = 2 + el; n < 11; n++) if (n <= E[0]) m = m << 8 | E[n];
    CHECK(E[0] <= 1 + el + (MB + 8) / 8, "length"); CHECK(m >> (MB + 1) == 0, "mantissa");
    CHECK(mk((int)(v.u >> (sizeof(au_t) * 8 - 1)), m, x, &ok) == v.u && ok, "the octets denote the number");
    if (ef == EL) REACH("low"); if (ef == EH) REACH("high");
}
#endif
/* decode LEN contents octets: base, scale factor and sign each way, exponent XE in ELEN octets, any mantissa */
#ifdef LEN
static byte D[LEN + 1];
static void put(long n) { int i; for (i = 0; i < LEN; i++) if (i < n) B[1 + i] = D[i]; }
static void dec1(int hd, long x) {
    AU w; w.u = 0; int i, ok; long e; uint64_t n = 0; au_t z; int base = hd >> 2 & 3, sc = hd & 3, neg = hd >> 4 & 1;
    end_stream(8 + 8 * LEN, 0); P0 = 0; BitStream_AttachBuffer(&S, B, 1 + LEN);
    B[0] = LEN; D[0] = (byte)(0x80 | neg << 6 | base << 4 | sc << 2 | (ELEN - 1));
    for (i = 0; i < ELEN; i++) D[1 + i] = (byte)(x >> (8 * (ELEN - 1 - i)));
    put(1 + ELEN); for (i = 1 + ELEN; i < LEN; i++) D[i] = B[1 + i];
    flag r = BitStream_DecodeReal(&S, &A(w));
    CHECK(!r || spos(&S) <= 8 + 8 * LEN, "position inside");
    for (i = 1 + ELEN; i < LEN; i++) { if (n >> 56) { CHECK(!r, "mantissa too long for the word is refused"); return; } n = n << 8 | D[i]; }
    e = x * (base == 0 ? 1 : base == 1 ? 3 : 4) + sc;
    if (n >> (MB + 1)) return;
    z = mk(neg, n, e, &ok);
    if (!ok) return;
    CHECK(r, "accepted"); CHECK(w.u == z, "value"); CHECK(spos(&S) == 8 + 8 * LEN, "position");
    REACH("any value"); if (sc == 3 && n > 1) REACH("any scaled");
}
void dec(void) {
    static const long X[] = { XS };
    int h;
    SPLIT(j, 0, (int)(sizeof X / sizeof X[0]) - 1, { h = BASE * 4; SPLIT(t, 0, 7, dec1(h + (t & 3) + (t & 4) * 4, X[j])); });
}
#endif
/* what is no supported encoding is refused; the special values are recognised; nothing is read beyond the end */
#ifdef SLEN
void spec(void) {
    AU w; w.u = 0; int i, ok;
    end_stream(8 + 8 * SLEN, CB); ASSUME(rval(O, P0, 8) == SLEN);
    byte D0 = SLEN ? (byte)rval(O, P0 + 8, 8) : 0, el = (byte)((D0 & 3) + 1);
    ASSUME(SLEN == 0 || D0 < 0x80 || (D0 & 0x30) == 0x30 || el == 4 || 1 + el > SLEN);
    flag r = BitStream_DecodeReal(&S, &A(w)); SAME_OUTSIDE(0);
    CHECK(!r || spos(&S) <= NB * 8, "position inside");
    if (SLEN == 0) { CHECK(r && w.u == 0, "no contents is plus zero"); POS(8); REACH("any zero"); }
    else if (SLEN == 1 && D0 >= 0x40 && D0 <= 0x43) {
        CHECK(r, "special value accepted"); POS(16);
        if (D0 == 0x42) CHECK(isnan(A(w)), "NaN");
        else CHECK(w.u == (D0 == 0x43 ? mk(1, 0, 0, &ok) : ((au_t)EMAX << MB | mk(D0 & 1, 0, 0, &ok))), "special value");
        REACH("any special");
    } else if (el != 4) { CHECK(!r, "refused"); REACH("any refused"); }
}
/* every truncation of arbitrary input: no read outside, no success */
static void trunc1(int c) {
    int i; byte *b = malloc((size_t)c + (c == 0)); AU w; w.u = 0; byte l = vin8();
    ASSUME(b != NULL);
    for (i = 0; i < c; i++) b[i] = vin8();
    BitStream_AttachBuffer(&S, b, c);
    if (c) { ASSUME(b[0] > c - 1); }
    (void)l;
    flag r = BitStream_DecodeReal(&S, &A(w));
    CHECK(!r, "truncated"); REACH("any refused");
    free(b);
}
void rtrunc(void) { SPLIT(c, 0, SLEN, trunc1(c)); }
#endif
