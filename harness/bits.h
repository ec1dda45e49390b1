/* The bit stream as an array of bits. Under the solver the bit-level primitives of the runtime (decided by C01-C08)
 * are replaced by what those checks show of them: they put or get these bits at the position and advance it. Bits that
 * are constant stay constant, so lengths and presence flags read back are known. The replay uses the real primitives. */
#ifndef BITS_H
#define BITS_H
#ifndef MAXBYTES
#define MAXBYTES 64
#endif
static byte EB[8 * MAXBYTES];             /* expected bits */
static long EP;
static inline void PUT(uint64_t x, int n) { int i; for (i = n - 1; i >= 0; i--) EB[EP++] = (byte)((x >> i) & 1); }
#define ALIGN(n) PUT(0, (int)(((n) - EP % (n)) % (n)))
static inline void ANY(byte *p, int n) { int i; for (i = 0; i < n; i++) p[i] = vin8(); }
static inline int SAME(const byte *a, const byte *b, int n) { int i; byte d = 0; for (i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
static inline int SAMEB(const byte *a, const byte *b, int n) { int i; byte d = 0; for (i = 0; i < n; i++) d |= ((a[i / 8] ^ b[i / 8]) >> (7 - i % 8)) & 1; return d == 0; }
static inline int LEN(const char *s, int max) { int i; for (i = 0; i < max; i++) if (s[i] == 0) return i; return max; }
static inline int SAMES(const char *a, const char *b, int max) { int i; for (i = 0; i <= max; i++) { if (a[i] != b[i]) return 0; if (a[i] == 0) return 1; } return 1; }
#define VDBL(x) do { uint64_t q_ = vin64(); double d_; memcpy(&d_, &q_, 8); x = d_; } while (0)
static int HINT[64], HN, HP;              /* lengths of the integers of variable length, in order */
static int DH[64], DHN, DHP;              /* lengths the decoder has to find out */
/* strings whose length is set by the shape: strlen of them need not be searched for */
#ifndef STRMAX
#define STRMAX 8
#endif
static const char *SP[24]; static int SL[24], SN;
static inline void SLEN(const char *s, int n) { SP[SN] = s; SL[SN++] = n; }
#ifdef VH_CBMC
#ifndef CMPMAX
#define CMPMAX 8
#endif
int memcmp(const void *a, const void *b, size_t n) {
    size_t i; byte d = 0;
    CHECK(n <= CMPMAX, "more is compared than the type holds");
    for (i = 0; i < CMPMAX; i++) if (i < n) d |= ((const byte *)a)[i] ^ ((const byte *)b)[i];
    return d;
}
size_t strlen(const char *s) {
    int i; size_t k = 0;
    for (i = 0; i < SN; i++) if (SP[i] == s) return (size_t)SL[i];
    while (k < STRMAX && s[k]) k++;
    return k;
}
#endif
#if defined(VH_CBMC) && !defined(VH_REALRT)     /* VH_REALRT: the real primitives under the solver too */
static byte BIT[8 * MAXBYTES + 64];
#define BUFP(p) ((p)->currentByte * 8 + (p)->currentBit)
static inline void adv(BitStream *p, int n) { long q = BUFP(p) + n; p->currentByte = (long)(q >> 3); p->currentBit = (int)(q & 7); }
static inline int room(const BitStream *p, int n) { return BUFP(p) + n <= (long)p->count * 8; }
static inline void gput(BitStream *p, uint64_t x, int n) {
    long q = BUFP(p); int i;
    CHECK(room(p, n), "the encoder writes past the announced size");
    for (i = 0; i < n; i++) BIT[q + i] = (byte)((x >> (n - 1 - i)) & 1);
    adv(p, n);
}
static inline uint64_t gget(BitStream *p, int n) {
    long q = BUFP(p); uint64_t x = 0; int i;
    for (i = 0; i < n; i++) x = (x << 1) | BIT[q + i];
    adv(p, n);
    return x;
}
static inline int wid(uint64_t r) { int n = 0, i; for (i = 0; i < 64; i++) if ((r >> i) != 0) n = i + 1; return n; }
void BitStream_AppendBitOne(BitStream *p) { gput(p, 1, 1); }
void BitStream_AppendBitZero(BitStream *p) { gput(p, 0, 1); }
void BitStream_AppendNBitZero(BitStream *p, int n) { int i; for (i = 0; i < n; i++) gput(p, 0, 1); }
void BitStream_AppendNBitOne(BitStream *p, int n) { int i; for (i = 0; i < n; i++) gput(p, 1, 1); }
void BitStream_AppendBit(BitStream *p, flag v) { gput(p, v ? 1 : 0, 1); }
void BitStream_AppendByte(BitStream *p, byte v, flag neg) { gput(p, (byte)(neg ? ~v : v), 8); }
flag BitStream_AppendByte0(BitStream *p, byte v) { gput(p, v, 8); return TRUE; }
void BitStream_AppendPartialByte(BitStream *p, byte v, byte n, flag neg) { gput(p, (byte)(neg ? ~v : v), n); }
flag BitStream_AppendByteArray(BitStream *p, const byte *a, const int n) { int i; if (!room(p, 8 * n)) return FALSE; for (i = 0; i < n; i++) gput(p, a[i], 8); return TRUE; }
flag BitStream_EncodeOctetString_no_length(BitStream *p, const byte *a, int n) { int i; if (!room(p, 8 * n)) return FALSE; for (i = 0; i < n; i++) gput(p, a[i], 8); return TRUE; }
void BitStream_AppendBits(BitStream *p, const byte *a, int n) { int i; for (i = 0; i < n; i++) gput(p, (a[i / 8] >> (7 - i % 8)) & 1, 1); }
flag BitStream_ReadBit(BitStream *p, flag *v) { if (!room(p, 1)) return FALSE; *v = gget(p, 1) != 0; return TRUE; }
flag BitStream_PeekBit(BitStream *p) { return room(p, 1) && BIT[BUFP(p)]; }
flag BitStream_ReadByte(BitStream *p, byte *v) { if (!room(p, 8)) return FALSE; *v = (byte)gget(p, 8); return TRUE; }
flag BitStream_ReadPartialByte(BitStream *p, byte *v, byte n) { if (!room(p, n)) return FALSE; *v = (byte)gget(p, n); return TRUE; }
flag BitStream_ReadByteArray(BitStream *p, byte *a, int n) { int i; if (!room(p, 8 * n)) return FALSE; for (i = 0; i < n; i++) a[i] = (byte)gget(p, 8); return TRUE; }
flag BitStream_DecodeOctetString_no_length(BitStream *p, byte *a, int n) { int i; if (!room(p, 8 * n)) return FALSE; for (i = 0; i < n; i++) a[i] = (byte)gget(p, 8); return TRUE; }
flag BitStream_ReadBits(BitStream *p, byte *a, int n) {
    int i; if (!room(p, n)) return FALSE;
    for (i = 0; i < n / 8; i++) a[i] = (byte)gget(p, 8);
    if (n % 8) a[n / 8] = (byte)(gget(p, n % 8) << (8 - n % 8));
    return TRUE;
}
flag BitStream_DecodeNonNegativeInteger(BitStream *p, asn1SccUint *v, int n) { *v = 0; if (!room(p, n)) return FALSE; *v = (asn1SccUint)gget(p, n); return TRUE; }
void BitStream_EncodeConstraintWholeNumber(BitStream *p, asn1SccSint v, asn1SccSint min, asn1SccSint max) { gput(p, (uint64_t)v - (uint64_t)min, wid((asn1SccUint)max - (asn1SccUint)min)); }
void BitStream_EncodeConstraintPosWholeNumber(BitStream *p, asn1SccUint v, asn1SccUint min, asn1SccUint max) { gput(p, (uint64_t)v - min, wid(max - min)); }
/* in a round trip, a value out of range on the way back is a violation where it happens */
static inline uint64_t gnum(BitStream *p, uint64_t range, flag *ok) {
    uint64_t x; int n = wid(range);
    *ok = (flag)room(p, n);
    if (!*ok) return 0;
    x = gget(p, n);
#ifdef VH_RT
    CHECK(x <= range, "the decoder meets a number that is out of range");
    ASSUME(x <= range);
#else
    *ok = x <= range;
#endif
    return x;
}
flag BitStream_DecodeConstraintWholeNumber(BitStream *p, asn1SccSint *v, asn1SccSint min, asn1SccSint max) {
    flag ok; uint64_t x = gnum(p, (asn1SccUint)max - (asn1SccUint)min, &ok);
    *v = 0; if (ok) *v = (asn1SccSint)(x + (uint64_t)min);
    return ok;
}
flag BitStream_DecodeConstraintPosWholeNumber(BitStream *p, asn1SccUint *v, asn1SccUint min, asn1SccUint max) {
    flag ok; uint64_t x = gnum(p, max - min, &ok);
    *v = 0; if (ok) *v = (asn1SccUint)(x + min);
    return ok;
}
static inline int hint(uint64_t x, int sg) {
    int k = HINT[HP++];
    if (sg) { int64_t s = (int64_t)x; CHECK((k >= 8 || (s >= -(1LL << (8 * k - 1)) && s < (1LL << (8 * k - 1)))) && (k <= 1 || !(s >= -(1LL << (8 * k - 9)) && s < (1LL << (8 * k - 9)))), "the length of an integer is not the expected one"); }
    else CHECK((k >= 8 || x < (1ULL << (8 * k))) && (k <= 1 || x >= (1ULL << (8 * k - 8))), "the length of an integer is not the expected one");
    return k;
}
void BitStream_EncodeSemiConstraintWholeNumber(BitStream *p, asn1SccSint v, asn1SccSint min) { uint64_t x = (uint64_t)v - (uint64_t)min; int k = hint(x, 0); gput(p, (uint64_t)k, 8); gput(p, x, 8 * k); }
void BitStream_EncodeSemiConstraintPosWholeNumber(BitStream *p, asn1SccUint v, asn1SccUint min) { uint64_t x = (uint64_t)v - min; int k = hint(x, 0); gput(p, (uint64_t)k, 8); gput(p, x, 8 * k); }
void BitStream_EncodeUnConstraintWholeNumber(BitStream *p, asn1SccSint v) { int k = hint((uint64_t)v, 1); gput(p, (uint64_t)k, 8); gput(p, (uint64_t)v, 8 * k); }
#ifdef GACN      /* codes generated from an ACN grammar */
#include "bits_acn.h"
#endif
#define ENCINIT() memset(BIT, 0, sizeof(BIT))
#define SAMEBITS(n) samebits(n)
static inline int samebits(long n) { long i; byte d = 0; for (i = 0; i < n; i++) d |= BIT[i] ^ EB[i]; return d == 0; }
/* arbitrary content of the input buffer, of len bytes, but for the first k bits */
static void anyinput(byte *b, long len, int k, int m) {
    long i; int j;
    for (i = 0; i < len; i++) {
        byte v = vin8();
        if (i == 0) v = (byte)((v & (0xFF >> k)) | (m << (8 - k)));
        b[i] = v;
        for (j = 0; j < 8; j++) BIT[8 * i + j] = (byte)((v >> (7 - j)) & 1);
        /* the first k bits are those of m */
        if (i == 0) for (j = 0; j < k; j++) BIT[j] = (byte)((m >> (k - 1 - j)) & 1);
    }
}
#else
#define ENCINIT() do { } while (0)
#define SAMEBITS(n) samebits(B, n)
static inline int samebits(const byte *b, long n) { long i; for (i = 0; i < n; i++) if (((b[i >> 3] >> (7 - (i & 7))) & 1) != EB[i]) return 0; return 1; }
static void anyinput(byte *b, long len, int k, int m) { long i; for (i = 0; i < len; i++) { b[i] = vin8(); if (i == 0) b[i] = (byte)((b[i] & (0xFF >> k)) | (m << (8 - k))); } }
#endif
#endif
