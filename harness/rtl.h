/* Reference view of a bit stream: bit i of the buffer, most significant bit first. */
#ifndef RTL_H
#define RTL_H
#include "vh.h"
#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"
#ifndef NB
#define NB 12
#endif
static byte B[NB], O[NB];          /* the stream's buffer, and a copy of its content before the call */
static BitStream S;
static long P0;                    /* start position in bits */
static inline int rbit(const byte *b, long i) { return (b[i >> 3] >> (7 - (i & 7))) & 1; }
static inline long spos(const BitStream *s) { return s->currentByte * 8 + s->currentBit; }
static inline void setpos(BitStream *s, long p) { s->currentByte = p >> 3; s->currentBit = (int)(p & 7); }
/* arbitrary content, arbitrary position with at least `room` bits left */
static inline void any_stream(long room) {
    int i;
    for (i = 0; i < NB; i++) B[i] = O[i] = vin8();
    BitStream_AttachBuffer(&S, B, NB);
    P0 = (long)vin_range(0, NB * 8);
    ASSUME(P0 + room <= NB * 8);
    setpos(&S, P0);
}
/* arbitrary content, position with bit offset cb chosen so that k bits just fit before the end */
static inline void end_stream(int k, int cb) {
    int i; long p = NB * 8 - k;
    for (i = 0; i < NB; i++) B[i] = O[i] = vin8();
    BitStream_AttachBuffer(&S, B, NB);
    p -= ((p - cb) % 8 + 8) % 8;
    P0 = p; setpos(&S, P0);
}
/* zeroed stream as BitStream_Init leaves it, arbitrary already written bits before the position */
static inline void enc_stream(long room) {
    int i;
    P0 = (long)vin_range(0, NB * 8);
    ASSUME(P0 + room <= NB * 8);
    BitStream_Init(&S, B, NB);
    for (i = 0; i < NB; i++) {
        byte v = vin8();
        if (i * 8 + 8 > P0) v = (byte)(i * 8 >= P0 ? 0 : v & (0xFF << (8 - (P0 - i * 8))));
        B[i] = O[i] = v;
    }
    setpos(&S, P0);
}
/* every bit outside [P0, P0+k) is as it was: checked for one arbitrary bit */
#define OTHERS_SAME(k) do { long j_ = (long)vin_range(0, NB * 8 - 1); \
    if (j_ < P0 || j_ >= P0 + (k)) CHECK(rbit(B, j_) == rbit(O, j_), "a bit outside the written field changed"); } while (0)
/* the same, for a concrete position, without an arbitrary index */
static inline void SAME_OUTSIDE(long k) {
    int i;
    for (i = 0; i < NB; i++) {
        long lo = P0 - 8 * i, hi = P0 + k - 8 * i; int m;
        if (lo < 0) lo = 0;
        if (hi > 8) hi = 8;
        m = hi > lo ? ((0xFF >> lo) & ~(0xFF >> hi)) & 0xFF : 0;
        CHECK(((B[i] ^ O[i]) & ~m & 0xFF) == 0, "a bit outside the field changed");
    }
}
#define ALL_SAME() do { long j_ = (long)vin_range(0, NB - 1); CHECK(B[j_] == O[j_], "reading changed the buffer"); } while (0)
#define POS(k) CHECK(spos(&S) == P0 + (k) && S.currentBit >= 0 && S.currentBit < 8, "position after the call")
/* value of k<=64 bits at bit offset p */
static inline uint64_t rval(const byte *b, long p, int k) {
    uint64_t v = 0; int i;
    for (i = 0; i < k; i++) v = v << 1 | (uint64_t)rbit(b, p + i);
    return v;
}
static inline int nb_of(uint64_t v) { int k = 0; while (v) { k++; v >>= 1; } return k; }
#endif
