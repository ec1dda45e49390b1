/* Octet and bit strings in uPER */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#ifdef MIN
static int width(void) { return nb_of((uint64_t)(MAX - MIN)); }
static byte A[NB], D[NB + 1];
static long p;
static int bits(long k) { int v = (int)rval(B, p, (int)k); p += k; return v; }
/* octets */
static void eo1(int n) {
    int i; end_stream(width() + 8 * n, CB); for (i = 0; i < n; i++) A[i] = vin8();
    flag r = BitStream_EncodeOctetString(&S, A, n, MIN, MAX); 
    if (n < MIN || n > MAX) { CHECK(!r, "a length outside the range is refused"); REACH("any refused"); return; }
    CHECK(r, "encoded"); POS(width() + 8 * n); SAME_OUTSIDE(width() + 8 * n); p = P0;
    CHECK(bits(width()) == n - MIN, "length field"); for (i = 0; i < n; i++) CHECK(bits(8) == A[i], "octet");
    REACH("any encoded");
}
void eo(void) { SPLIT(n, NLO, NHI, eo1(n)); }
static void do1(int n) {             /* n: value of the length field plus MIN */
    int i, c = -1; if (MIN == MAX && n != MIN) return;
    end_stream(width() + 8 * n, CB); p = P0; ASSUME(bits(width()) == n - MIN); byte g = D[n];
    for (i = 0; i <= NHI; i++) D[i] = g;
    flag r = BitStream_DecodeOctetString(&S, D, &c, MIN, MAX); SAME_OUTSIDE(0);
    if (n > MAX) { CHECK(!r, "a length above the maximum is refused"); REACH("any refused"); return; }
    CHECK(r && c == n, "accepted, with its length"); POS(width() + 8 * n);
    for (i = 0; i < n; i++) CHECK(bits(8) == D[i], "octet"); CHECK(D[n] == g, "nothing written behind it");
    REACH("any decoded");
}
void dco(void) { SPLIT(n, MIN, NHI, do1(n)); }
/* bits */
static void eb1(int n) {
    int i; end_stream(width() + n, CB); for (i = 0; i < (n + 7) / 8; i++) A[i] = vin8();
    flag r = BitStream_EncodeBitString(&S, A, n, MIN, MAX);
    if (n < MIN || n > MAX) { CHECK(!r, "a length outside the range is refused"); REACH("any refused"); return; }
    CHECK(r, "encoded"); POS(width() + n); SAME_OUTSIDE(width() + n); p = P0;
    CHECK(bits(width()) == n - MIN, "length field"); for (i = 0; i < n; i++) CHECK(bits(1) == rbit(A, i), "bit");
    REACH("any encoded");
}
void eb(void) { SPLIT(n, NLO, NHI, eb1(n)); }
static void db1(int n) {
    int i, c = -1; byte g; if (MIN == MAX && n != MIN) return;
    end_stream(width() + n, CB); p = P0; ASSUME(bits(width()) == n - MIN);
    g = vin8(); for (i = 0; i <= (NHI + 7) / 8; i++) D[i] = g;
    flag r = BitStream_DecodeBitString(&S, D, &c, MIN, MAX); SAME_OUTSIDE(0);
    if (n > MAX) { CHECK(!r, "a length above the maximum is refused"); REACH("any refused"); return; }
    CHECK(r && c == n, "accepted, with its length"); POS(width() + n);
    for (i = 0; i < n; i++) CHECK(bits(1) == rbit(D, i), "bit"); CHECK(D[(n + 7) / 8] == g, "nothing written behind it");
    REACH("any decoded");
}
void dcb(void) { SPLIT(n, MIN, NHI, db1(n)); }
#endif
/* unbounded or large maximum: one length, no fragment. N concrete */
#ifdef N
#define LW (N < 128 ? 1 : 2)
static byte A[N + 1], D[N + 2];
static void hdr(byte *q) { if (N < 128) q[0] = N; else { q[0] = 0x80 | N >> 8; q[1] = N & 0xFF; } }
void feo(void) {
    int i; byte h[2]; hdr(h); P0 = 0; BitStream_AttachBuffer(&S, B, N + LW); for (i = 0; i < N; i++) A[i] = vin8();
    flag r = BitStream_EncodeOctetString(&S, A, N, FMIN, 70000); CHECK(r, "encoded"); POS(8 * (N + LW));
    CHECK(B[0] == h[0] && (LW < 2 || B[1] == h[1]), "length"); for (i = 0; i < N; i++) CHECK(B[i + LW] == A[i], "octet"); REACH("end");
}
void fdo(void) {
    int i, c = -1; hdr(B); P0 = 0; BitStream_AttachBuffer(&S, B, N + LW); for (i = 0; i < N; i++) B[i + LW] = vin8();
    flag r = BitStream_DecodeOctetString(&S, D, &c, FMIN, 70000); 
    if (N < FMIN) { CHECK(!r, "a length below the minimum is refused"); REACH("any refused"); return; }
    CHECK(r && c == N, "accepted, with its length"); POS(8 * (N + LW)); for (i = 0; i < N; i++) CHECK(B[i + LW] == D[i], "octet"); REACH("any end");
}
void feb(void) {
    int i; byte h[2]; hdr(h); P0 = 0; BitStream_AttachBuffer(&S, B, (N + 7) / 8 + LW); for (i = 0; i < N; i++) A[i] = vin8();
    flag r = BitStream_EncodeBitString(&S, A, N, FMIN, 70000); CHECK(r, "encoded"); POS(N + 8 * LW);
    CHECK(B[0] == h[0] && (LW < 2 || B[1] == h[1]), "length"); for (i = 0; i < N; i++) CHECK(rbit(B, i + 8 * LW) == rbit(A, i), "bit"); REACH("end");
}
void fdb(void) {
    int i, c = -1; hdr(B); P0 = 0; BitStream_AttachBuffer(&S, B, (N + 7) / 8 + LW); for (i = 0; i < (N + 7) / 8; i++) B[i + LW] = vin8();
    flag r = BitStream_DecodeBitString(&S, D, &c, FMIN, 70000); 
    if (N < FMIN) { CHECK(!r, "a length below the minimum is refused"); REACH("any refused"); return; }
    CHECK(r && c == N, "accepted, with its length"); POS(N + 8 * LW); for (i = 0; i < N; i++) CHECK(rbit(B, i + 8 * LW) == rbit(D, i), "bit"); REACH("any end");
}
#endif
/* large strings: the primitive operations that carry the contents are replaced by ones that compare, octet by
 * octet, what they are given with what X.691 prescribes at that place */
#ifdef BIG
static byte A[BIG + 8];
static byte D[sizeof A];
static int TL;     /* bits of the expected octet that count */
#ifdef NOMARKS
#define marks()
#define marked(k) 0
#else
static void marks(void) { int i; for (i = 0; i <= BIG / 0x800; i++) A[i * 0x800] = (byte)(i + 1); for (i = 0; i <= BIG / 0x4000; i++) if (i) A[i * 0x4000 - 1] = (byte)(0x80 + i); }
#endif
static int fast, lim, seen, n, unit, cnt, left, inblk, hd, last, acc, nacc, bad, over;      /* n: octets or bits in all; cnt: done; left: of the current block */
#define FS if (unit == 8 && left > 0) { fast = 1; lim = cnt + left; }
static int expect(void) {
    int r = n - cnt, v;
    TL = 8;
    if (left > 0) { v = A[unit == 8 ? cnt : cnt / 8]; if (unit == 1 && left < 8) TL = left; cnt += unit == 8 ? 1 : left < 8 ? left : 8; left -= unit == 8 ? 1 : left < 8 ? left : 8; return v; }
    if (hd) { hd = 0; left = r; last = 1; FS return r & 0xFF; }
    if (last) { over = 1; return 0; }
    if (r >= 0x4000) { int k = r / 0x4000; if (k > 4) k = 4; left = k * 0x4000; FS return 0xC0 | k; }
    if (r >= 128) { hd = 1; return 0x80 | r >> 8; }
    left = r; last = 1; FS return r;
}
static void push1(int v, int k) {          /* k <= 8 bits */
    if (nacc == 0 && k == 8) { if (expect() != v || TL != 8) bad = 1; return; }
    while (k-- > 0) {
        acc = acc << 1 | (v >> k & 1);
        if (++nacc == 8) { if (expect() != (acc & 0xFF) || TL != 8) bad = 1; acc = nacc = 0; }
    }
}
static void push(uint64_t v, int k) { while (k > 8) { int t = k % 8 ? k % 8 : 8; push1((int)(v >> (k - t)) & 0xFF, t); k -= t; } if (k) push1((int)v & 0xFF, k); }
/* contents of a block of octets: only the marked places are not zero */
#define FAST(v) if (fast) { if (v) { seen++; if (A[cnt] != (v)) bad = 1; } cnt++; if (cnt == lim) left = fast = 0; return 1; }
flag BitStream_AppendByte0(BitStream *s, byte v) { FAST(v) push1(v, 8); return 1; }
void BitStream_AppendByte(BitStream *s, byte v, flag neg) { push1(neg ? (byte)~v : v, 8); }
flag BitStream_AppendByteArray(BitStream *s, const byte *a, const int k) { int i; for (i = 0; i < k; i++) BitStream_AppendByte0(s, a[i]); return 1; }
flag BitStream_EncodeOctetString_no_length(BitStream *s, const byte *a, int k) { int i; for (i = 0; i < k; i++) BitStream_AppendByte0(s, a[i]); return 1; }
void BitStream_AppendBit(BitStream *s, flag v) { push1(!!v, 1); }
void BitStream_AppendBitOne(BitStream *s) { push1(1, 1); }
void BitStream_AppendBitZero(BitStream *s) { push1(0, 1); }
void BitStream_AppendPartialByte(BitStream *s, byte v, byte k, flag neg) { push1(neg ? (byte)~v : v, k); }
void BitStream_AppendBits(BitStream *s, const byte *a, int k) {
    int i = 0;
    if (!nacc && last == 0 || !nacc && left >= k) { if (k > left) { bad = 1; return; } for (i = 0; i + 8 <= k; i += 8) { if (a[i / 8]) { seen++; if (A[cnt / 8 + i / 8] != a[i / 8]) bad = 1; } } cnt += i; left -= i; }
    for (; i + 8 <= k; i += 8) push1(a[i / 8], 8);
    if (k - i > 0) { int e = expect(); if (nacc || TL != k - i || (e ^ a[i / 8]) >> (8 - TL) & ((1 << TL) - 1)) bad = 1; }
}
void BitStream_EncodeConstraintWholeNumber(BitStream *s, asn1SccSint v, asn1SccSint lo, asn1SccSint hi) { if (v < lo || v > hi) bad = 1; push((uint64_t)(v - lo), nb_of((uint64_t)(hi - lo))); }
void BitStream_EncodeConstraintPosWholeNumber(BitStream *s, asn1SccUint v, asn1SccUint lo, asn1SccUint hi) { if (v < lo || v > hi) bad = 1; push((uint64_t)(v - lo), nb_of((uint64_t)(hi - lo))); }
static int rd(void) { return expect(); }
flag BitStream_ReadByte(BitStream *s, byte *v) { if (fast) { if (v != &D[cnt]) bad = 1; cnt++; if (cnt == lim) left = fast = 0; } else *v = (byte)rd(); return 1; }
flag BitStream_ReadByteArray(BitStream *s, byte *a, int k) { int i; if (k > 0 && a != &D[cnt]) bad = 1; if (k > left) bad = 1; else { cnt += k; left -= k; if (!left) fast = 0; } (void)i; return 1; }
flag BitStream_DecodeOctetString_no_length(BitStream *s, byte *a, int k) { return BitStream_ReadByteArray(s, a, k); }
flag BitStream_ReadBits(BitStream *s, byte *a, int k) { if (k > 0 && a != &D[cnt / 8]) bad = 1; if (k > left) bad = 1; else { cnt += k; left -= k; if (!left) fast = 0; } return 1; }
static int rb, nrb;
flag BitStream_ReadBit(BitStream *s, flag *v) { if (!nrb) { rb = rd(); nrb = 8; } nrb--; *v = rb >> nrb & 1; return 1; }
static asn1SccUint rbits(int k) { asn1SccUint v = 0; if (!nrb) while (k >= 8) { v = v << 8 | (asn1SccUint)rd(); k -= 8; } while (k-- > 0) { flag x; BitStream_ReadBit(0, &x); v = v << 1 | (asn1SccUint)!!x; } return v; }
flag BitStream_DecodeConstraintWholeNumber(BitStream *s, asn1SccSint *v, asn1SccSint lo, asn1SccSint hi) { *v = lo + (asn1SccSint)rbits(nb_of((uint64_t)(hi - lo))); return *v <= hi; }
flag BitStream_DecodeConstraintPosWholeNumber(BitStream *s, asn1SccUint *v, asn1SccUint lo, asn1SccUint hi) { *v = lo + rbits(nb_of((uint64_t)(hi - lo))); return *v <= hi; }
#ifndef NOMARKS
static int marked(int k) { int i, c = 0; for (i = 0; i <= BIG / 0x800; i++) if (i * 0x800 < k) c++; for (i = 1; i <= BIG / 0x4000; i++) if (i * 0x4000 - 1 < k) c++; return c; }
#endif
#define DONE(r) do { CHECK(r, "succeeds"); CHECK(!bad && !over, "octets and places X.691 prescribes"); CHECK(cnt == n && last && !nacc && !nrb, "all of it"); } while (0)
static void beo1(int k) { marks(); flag r; n = k; unit = 8; r = BitStream_EncodeOctetString(&S, A, n, 0, 200000); DONE(r); CHECK(seen == marked(n), "all contents"); REACH("any end"); }
static void bdo1(int k) { marks(); flag r; int c = -1; n = k; unit = 8; r = BitStream_DecodeOctetString(&S, D, &c, 0, 200000); DONE(r); CHECK(c == n, "length"); REACH("any end"); }
static void beb1(int k) { marks(); flag r; n = k; unit = 1; r = BitStream_EncodeBitString(&S, A, n, 0, 2000000); DONE(r); CHECK(seen >= marked(n / 8), "all contents"); REACH("any end"); }
static void bdb1(int k) { marks(); flag r; int c = -1; n = k; unit = 1; r = BitStream_DecodeBitString(&S, D, &c, 0, 2000000); DONE(r); CHECK(c == n, "length"); REACH("any end"); }
static void bmx1(int k) { marks(); flag r; int c = -1; n = k; unit = 8; r = BitStream_DecodeOctetString(&S, D, &c, 0, k - 1); CHECK(!r, "longer than the maximum is refused"); REACH("any end"); }
static void bmxb1(int k) { marks(); flag r; int c = -1; n = k; unit = 1; r = BitStream_DecodeBitString(&S, D, &c, 0, k - 1); CHECK(!r, "longer than the maximum is refused"); REACH("any end"); }
static const int K[] = { KS };
#define RUN(f) void f(void) { SPLIT(j, 0, (int)(sizeof K / sizeof K[0]) - 1, f##1(K[j])); }
RUN(beo) RUN(bdo) RUN(beb) RUN(bdb) RUN(bmx) RUN(bmxb)
#endif
