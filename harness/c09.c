/* object identifiers: content octets as in X.690 8.19/8.20, length octet(s), exact decoding of arbitrary content */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#ifndef K      /* number of components */
#define K 3
#endif
#ifndef REL
#define REL 0
#endif
#define UMAX ((asn1SccUint)-1)
#define WB (WORD_SIZE * 8)
static Asn1ObjectIdentifier V, W;
static int octs(asn1SccUint v) { int n = (nb_of(v) + 6) / 7; return n ? n : 1; }
static int enc(Asn1ObjectIdentifier *v) { (void)v; if (REL) RelativeOID_uper_encode(&S, v); else ObjectIdentifier_uper_encode(&S, v); return 1; }
static flag dec(Asn1ObjectIdentifier *v) { return REL ? RelativeOID_uper_decode(&S, v) : ObjectIdentifier_uper_decode(&S, v); }
static flag valid(const Asn1ObjectIdentifier *v) { return REL ? RelativeOID_isValid(v) : ObjectIdentifier_isValid(v); }
#ifndef VMAX
#define VMAX UMAX
#endif
/* encode a valid value with K components, compare with the reference octets, decode */
void rt(void) {
    int i, j, n = 0, room = 8 + 8 * K * ((WB + 6) / 7); static byte R[K * 10 + 1];
    for (i = 0; i < OBJECT_IDENTIFIER_MAX_LENGTH; i++) V.values[i] = (asn1SccUint)vin64();
    V.nCount = K; ASSUME(valid(&V)); 
    for (i = 0; i < K; i++) ASSUME(V.values[i] <= VMAX);
    if (!REL) ASSUME(V.values[1] <= UMAX - 80);
    for (i = REL ? 0 : 1; i < K; i++) {
        asn1SccUint v = (!REL && i == 1) ? V.values[0] * 40 + V.values[1] : V.values[i]; int k = octs(v);
        for (j = k - 1; j >= 0; j--) R[n++] = (byte)(((v >> (7 * j)) & 0x7F) | (j ? 0x80 : 0));
    }
    end_stream(room, CB);
    enc(&V); POS(8 + 8 * n); CHECK(rval(B, P0, 8) == (uint64_t)n, "length octet");
    for (i = 0; i < NB - 1; i++) if (i < n && P0 + 16 + 8 * i <= NB * 8) CHECK(rval(B, P0 + 8 + 8 * i, 8) == R[i], "content octet");
    { int i2 = (int)vin_range(0, NB * 8 - 1); if (i2 < P0 || i2 >= P0 + 8 + 8 * n) CHECK(rbit(B, i2) == rbit(O, i2), "a bit outside the encoding changed"); }
    setpos(&S, P0);
    CHECK(dec(&W), "decodes"); POS(8 + 8 * n);
    CHECK(W.nCount == K, "number of components"); for (i = 0; i < K; i++) CHECK(W.values[i] == V.values[i], "component");
    if (V.values[K - 1] == ((!REL && K == 2 && VMAX == UMAX) ? UMAX - 80 : VMAX)) REACH("largest"); if (n == K - (REL ? 0 : 1)) REACH("shortest");
}
/* validation */
void val(void) {
    int i; for (i = 0; i < OBJECT_IDENTIFIER_MAX_LENGTH; i++) V.values[i] = (asn1SccUint)vin64();
    V.nCount = (int)vin32();
    int ok = V.nCount <= OBJECT_IDENTIFIER_MAX_LENGTH && (REL ? V.nCount >= 1 : V.nCount >= 2 && (V.values[0] == 2 || (V.values[0] < 2 && V.values[1] <= 39)));
    CHECK(!!valid(&V) == ok, "valid exactly when admissible");
    if (ok) REACH("valid"); if (V.nCount > OBJECT_IDENTIFIER_MAX_LENGTH) REACH("too many"); if (!REL && !ok && V.nCount == 2) REACH("any arcs"); if (REL && ok) REACH("any rel");
}
void init(void) { int i; ObjectIdentifier_Init(&V); CHECK(V.nCount == 0, "no components"); for (i = 0; i < OBJECT_IDENTIFIER_MAX_LENGTH; i++) CHECK(V.values[i] == 0, "zeroed"); REACH("init"); }
/* arbitrary N content octets */
#ifdef N
static struct { Asn1ObjectIdentifier v; byte guard[8]; } G;
void rd(void) {
    int i, c = 0, bad = 0, open = 0; asn1SccUint v = 0, E[N + 2]; 
    for (i = 0; i < 8; i++) G.guard[i] = 0x5A;
    end_stream(8 + 8 * N, CB);
    B[P0 / 8] = O[P0 / 8] = (byte)((O[P0 / 8] & ~(0xFF >> CB)) | (N >> CB)); if (CB) B[P0 / 8 + 1] = O[P0 / 8 + 1] = (byte)((O[P0 / 8 + 1] & (0xFF >> CB)) | ((N << (8 - CB)) & 0xFF));
    ASSUME(rval(O, P0, 8) == N);
    for (i = 0; i < N; i++) { byte x = (byte)rval(O, P0 + 8 + 8 * i, 8);
        if (!open) v = 0;
        if (v >> (WB - 7)) bad = 1;
        v = (asn1SccUint)(v << 7) | (x & 0x7F); open = x >> 7;
        if (!open) { if (!REL && c == 0) { asn1SccUint a = v < 40 ? 0 : v < 80 ? 1 : 2; E[0] = a; E[1] = v - 40 * a; c = 2; } else { E[c] = v; c++; } }
    }
    if (open || (!REL && N == 0)) bad = 1;
    if (c > OBJECT_IDENTIFIER_MAX_LENGTH) bad = 1;
    flag r = dec(&G.v);
    CHECK(!!r == !bad, "accepted exactly when every component is complete and fits");
    if (r) { CHECK(G.v.nCount == c, "number of components"); POS(8 + 8 * N); for (i = 0; i < N + 1 && i < OBJECT_IDENTIFIER_MAX_LENGTH; i++) if (i < c) CHECK(G.v.values[i] == E[i], "component");
        if (N > 0) CHECK(valid(&G.v), "a decoded identifier is valid"); }
    CHECK(G.v.nCount >= 0 && G.v.nCount <= OBJECT_IDENTIFIER_MAX_LENGTH, "capacity"); for (i = 0; i < 8; i++) CHECK(G.guard[i] == 0x5A, "memory after the value");
    SAME_OUTSIDE(0);
    if (r) REACH("any accepted"); if (!r) REACH("any refused");
}
/* more components than there is room for: N single-octet components */
void many(void) {
    int i; for (i = 0; i < 8; i++) G.guard[i] = 0x5A;
    for (i = 0; i < NB; i++) B[i] = O[i] = vin8() & 0x7F;
    B[0] = O[0] = N; BitStream_AttachBuffer(&S, B, NB);
    flag r = dec(&G.v); int c = REL ? N : N + 1;
    CHECK(!!r == (c <= OBJECT_IDENTIFIER_MAX_LENGTH), "refused when there are too many"); if (r) CHECK(G.v.nCount == c, "number of components");
    CHECK(G.v.nCount <= OBJECT_IDENTIFIER_MAX_LENGTH, "capacity"); for (i = 0; i < 8; i++) CHECK(G.guard[i] == 0x5A, "memory after the value");
    if (r) REACH("any accepted"); if (!r) REACH("any refused");
}
/* length octets: every value of the length field, contents arbitrary, input shorter than announced */
void len(void) {
    int i; for (i = 0; i < 8; i++) G.guard[i] = 0x5A;
    end_stream(8 * N, CB); flag r = dec(&G.v); uint64_t l = rval(O, P0, 8);
    if (l < 128 && l + 1 > N) CHECK(!r, "refused when the announced octets are not there");
    CHECK(spos(&S) <= NB * 8, "position beyond the input"); CHECK(G.v.nCount <= OBJECT_IDENTIFIER_MAX_LENGTH, "capacity"); for (i = 0; i < 8; i++) CHECK(G.guard[i] == 0x5A, "memory after the value");
    if (r) REACH("accepted"); if (!r) REACH("refused"); if (l >= 128) REACH("long form");
}
#endif
/* long form of the length: all K components take many octets */
#ifdef LONGF
static int longv(int x, byte *R) {
    int i, j, m = 0;
    for (i = 0; i < 20; i++) V.values[i] = ((asn1SccUint)1 << 63) | (asn1SccUint)i * 0x123456789ULL;
    V.values[19] |= (asn1SccUint)x; V.nCount = 20; if (!REL) V.values[0] = 2;
    for (i = REL ? 0 : 1; i < 20; i++) { asn1SccUint v = V.values[i] + (!REL && i == 1 ? 80 : 0); for (j = 9; j >= 0; j--) R[m++] = (byte)(((v >> (7 * j)) & 0x7F) | (j ? 0x80 : 0)); }
    return m;
}
static byte R[204];
static void longf1(int x) {     /* encoding into a buffer of any content */
    int i, n = longv(x, R);
    for (i = 0; i < NB; i++) B[i] = O[i] = vin8();
    P0 = CB; BitStream_AttachBuffer(&S, B, NB); setpos(&S, P0);
    enc(&V); POS(16 + 8 * n); CHECK(rval(B, P0, 16) == (uint64_t)(0x8000 | n), "length octets"); SAME_OUTSIDE(16 + 8 * n);
    for (i = 0; i < n; i++) CHECK(rval(B, P0 + 16 + 8 * i, 8) == R[i], "content octet");
    if (x == 1) REACH("done");
}
static void longd1(int x) {     /* decoding, any bits around it */
    int i, n = longv(x, R);
    B[0] = 0x80; B[1] = (byte)n; for (i = 0; i < n; i++) B[i + 2] = R[i];
    for (i = n + 2; i < NB; i++) B[i] = vin8();
    BitStream_AttachBuffer(&S, B, NB); P0 = 0;
    CHECK(dec(&W), "decodes"); POS(16 + 8 * n); CHECK(W.nCount == 20, "number of components"); for (i = 0; i < 20; i++) CHECK(W.values[i] == V.values[i], "component"); if (x == 1) REACH("done");
}
void longd(void) { SPLIT(x, 0, 1, longd1(x)); }
void longf(void) { SPLIT(x, 0, 1, longf1(x)); }
#endif
