/* deferred determinants: reserve, write something else, fill in, fill in again */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#define WB (WORD_SIZE * 8)
#define WMASK ((asn1SccUint)-1)
#define ERR0 -777
static AcnInsertedFieldRef det;
static uint64_t swapn(uint64_t v, int n) { uint64_t r = 0; int i; for (i = 0; i < n; i++) r = r << 8 | ((v >> (8 * i)) & 0xFF); return r; }
static uint64_t lowm(int k) { return k >= 64 ? ~0ULL : (1ULL << k) - 1; }
static byte AFT[NB];
static void snap(byte *d) { int i; for (i = 0; i < NB; i++) d[i] = B[i]; }
static void same_but(const byte *old, long lo, long k) { int i; for (i = 0; i < NB; i++) { long a = lo - 8 * i, b = lo + k - 8 * i; int m; if (a < 0) a = 0; if (b > 8) b = 8; m = b > a ? ((0xFF >> a) & ~(0xFF >> b)) & 0xFF : 0; CHECK(((B[i] ^ old[i]) & ~m & 0xFF) == 0, "a bit outside the field changed"); } }
/* k bits reserved at P0; then up to 2 bytes of other fields; then the patches */
#define HIST(k, INIT, PATCH1, PATCH2, IMAGE, SAMEV, REJ) do { \
    int err = ERR0; long cur; uint16_t other = vin16(); int ob = (int)(vin8() & 1); \
    memset(&det, vin8(), sizeof det); \
    end_stream((k) + 16, CB); \
    INIT; POS(k); same_but(O, P0, k); CHECK(!det.is_set, "not yet set"); \
    BitStream_AppendBit(&S, other & 1); BitStream_AppendPartialByte(&S, (byte)((other >> 1) & 0x7F), 7, FALSE); if (ob) BitStream_AppendByte0(&S, (byte)(other >> 8)); \
    cur = spos(&S); CHECK(cur == P0 + (k) + (ob ? 16 : 8), "position of the following fields"); snap(AFT); \
    CHECK(PATCH1, "the first value is taken"); CHECK(err == ERR0, "no error"); \
    CHECK(spos(&S) == cur && S.currentBit >= 0 && S.currentBit < 8, "position is back"); same_but(AFT, P0, k); CHECK(IMAGE, "the field holds the value"); \
    snap(AFT); { flag r = PATCH2; CHECK(!!r == !!(SAMEV), "a second value is taken exactly when it is the same"); \
    CHECK(r ? err == ERR0 : err == ERR_ACN_DET_CONSISTENCY_MISMATCH, "error code"); CHECK(spos(&S) == cur, "position is back"); same_but(AFT, 0, 0); \
    if (r) REACH("same"); if (!r) REACH(REJ); } } while (0)
#define FITS(v, k, sg) ((sg) ? (k) >= WB || (asn1SccSint)(v) == (asn1SccSint)(((v) & lowm(k)) | (((v) >> ((k) - 1)) & 1 ? ~lowm(k) : 0)) : ((v) & ~(asn1SccUint)lowm(k)) == 0)
#define FIXED(name, k, le, sg) void name(void) { asn1SccUint v = (asn1SccUint)vin64(), w = (asn1SccUint)vin64(); uint64_t x; \
    ASSUME(FITS(v, k, sg)); x = sg ? (uint64_t)(int64_t)(asn1SccSint)v & lowm(k) : (uint64_t)v; if (le) x = swapn(x, k / 8); \
    HIST(k, Acn_InitDet_##name(&S, &det), Acn_PatchDet_##name(v, &S, &det, &err), Acn_PatchDet_##name(w, &S, &det, &err), rval(B, P0, k) == x, v == w, "different"); }
FIXED(U8, 8, 0, 0) FIXED(U16_BE, 16, 0, 0) FIXED(U32_BE, 32, 0, 0) FIXED(U64_BE, 64, 0, 0)
FIXED(U16_LE, 16, 1, 0) FIXED(U32_LE, 32, 1, 0) FIXED(U64_LE, 64, 1, 0)
FIXED(I8, 8, 0, 1) FIXED(I16_BE, 16, 0, 1) FIXED(I32_BE, 32, 0, 1) FIXED(I64_BE, 64, 0, 1)
void BOOL1(void) { asn1SccUint v = vin8() & 1, w = vin8() & 1;
    HIST(1, Acn_InitDet_BOOL1(&S, &det), Acn_PatchDet_BOOL1(v, &S, &det, &err), Acn_PatchDet_BOOL1(w, &S, &det, &err), rval(B, P0, 1) == v, v == w, "different"); }
#define ANYSIZE(name, sg) static void name##1(int k) { asn1SccUint v = (asn1SccUint)vin64(), w = (asn1SccUint)vin64(); ASSUME(FITS(v, k, sg)); \
    HIST(k, Acn_InitDet_##name(&S, k, &det), Acn_PatchDet_##name(v, &S, k, &det, &err), Acn_PatchDet_##name(w, &S, k, &det, &err), rval(B, P0, k) == ((uint64_t)v & lowm(k)), v == w, "different"); } \
    void name(void) { SPLIT(k, 1, WB, name##1(k)); }
ANYSIZE(ConstSize, 0) ANYSIZE(TwosComplement_ConstSize, 1)
/* strings of 7 bit characters, padded with blanks */
#ifdef L
static char V[L + 2], W[L + 2];
static uint64_t pad(const char *s) { uint64_t r = 0; int i, n = 0; for (i = 0; i < L; i++) { if (n == i && s[i]) n++; r = r << 7 | (n > i ? (byte)s[i] : 0x20); } return r; }
static int eq(void) { int i; for (i = 0; i < L; i++) { if (V[i] != W[i]) return 0; if (!V[i]) return 1; } return 1; }
void str(void) { int i; for (i = 0; i <= L; i++) { V[i] = (char)(vin8() & 0x7F); W[i] = (char)(vin8() & 0x7F); } V[L] = W[L] = 0;
    HIST(7 * L, Acn_InitDet_IA5String_FixSize(&S, L, &det), Acn_PatchDet_IA5String_FixSize(V, &S, L, &det, &err), Acn_PatchDet_IA5String_FixSize(W, &S, L, &det, &err), rval(B, P0, 7 * L) == pad(V), eq(), "different"); }
#endif
/* positions */
void dist(void) { AcnBitStreamPos a, b; a.currentByte = vin_range(0, 1 << 20); a.currentBit = (int)vin_range(0, 7); b.currentByte = vin_range(0, 1 << 20); b.currentBit = (int)vin_range(0, 7);
    long x = a.currentByte * 8 + a.currentBit, y = b.currentByte * 8 + b.currentBit; ASSUME(x <= y);
    CHECK(Acn_BitStream_DistanceInBits(a, b) == (asn1SccUint)(y - x), "bits"); CHECK(Acn_BitStream_DistanceInBytes(a, b) == (asn1SccUint)((y - x + 7) / 8), "bytes");
    if (x == y) REACH("empty"); if ((y - x) % 8 == 1) REACH("one more"); }
