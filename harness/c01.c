#include "rtl.h"
#define L 4
#ifndef CB
#define CB 0
#endif
void w_bit(void) { any_stream(1); flag v = vin8() & 1; BitStream_AppendBit(&S, v); POS(1); CHECK(rbit(B, P0) == v, "bit"); OTHERS_SAME(1); REACH("end"); }
void w_one(void) { any_stream(1); BitStream_AppendBitOne(&S); POS(1); CHECK(rbit(B, P0) == 1, "bit one"); OTHERS_SAME(1); REACH("end"); }
void w_zero(void) { any_stream(1); BitStream_AppendBitZero(&S); POS(1); CHECK(rbit(B, P0) == 0, "bit zero"); OTHERS_SAME(1); REACH("end"); }
static void nbits(int one, int k) {
    any_stream(k);
    if (one) BitStream_AppendNBitOne(&S, k); else BitStream_AppendNBitZero(&S, k);
    POS(k);
    long j = (long)vin_range(0, NB * 8 - 1);
    if (j >= P0 && j < P0 + k) CHECK(rbit(B, j) == one, "run of equal bits");
    OTHERS_SAME(k);
    if (k > 9 && (P0 & 7) == 3) REACH("end");
}
void w_nzero(void) { SPLIT(k, 0, 40, nbits(0, k)); }
void w_none(void) { SPLIT(k, 0, 40, nbits(1, k)); }
void w_byte(void) {
    any_stream(8); byte v = vin8(); flag neg = vin8() & 1;
    BitStream_AppendByte(&S, v, neg); POS(8);
    CHECK(rval(B, P0, 8) == (byte)(neg ? ~v : v), "byte"); OTHERS_SAME(8); if (P0 & 7) REACH("end");
}
void w_byte0(void) {
    any_stream(8); byte v = vin8();
    flag r = BitStream_AppendByte0(&S, v); CHECK(r, "byte accepted"); POS(8);
    CHECK(rval(B, P0, 8) == v, "byte"); OTHERS_SAME(8); if (P0 & 7) REACH("end");
}
void w_partial(void) {
    int k = (int)vin_range(1, 7); any_stream(k); byte v = vin8(); ASSUME(v < (1 << k)); flag neg = vin8() & 1;
    BitStream_AppendPartialByte(&S, v, (byte)k, neg); POS(k);
    int i = (int)vin_range(0, 6);
    if (i < k) CHECK(rbit(B, P0 + i) == (((v >> (k - 1 - i)) & 1) ^ neg), "partial byte");
    OTHERS_SAME(k); if ((P0 & 7) + k > 8) REACH("end");
}
static void arr(int what) {
    byte a[L + 1]; int i, k; for (i = 0; i <= L; i++) a[i] = vin8();
    int n = (int)vin_range(0, what == 1 ? L * 8 : L);
    k = what == 1 ? n : n * 8;
    any_stream(k);
    if (what == 0) { flag r = BitStream_AppendByteArray(&S, a, n); CHECK(r, "accepted"); }
    if (what == 1) BitStream_AppendBits(&S, a, n);
    if (what == 2) { flag r = BitStream_EncodeOctetString_no_length(&S, a, n); CHECK(r, "accepted"); }
    POS(k);
    i = (int)vin_range(0, L * 8 - 1);
    if (i < k) CHECK(rbit(B, P0 + i) == rbit(a, i), "array content");
    OTHERS_SAME(k);
    if (k >= 24 && (P0 & 7)) REACH("end");
}
void w_bytearray(void) { arr(0); }
void w_bits(void) { arr(1); }
void w_octets(void) { arr(2); }
/* every value, in its minimal number of bits; the 64 bits from the position are one window */
#define WMASK ((asn1SccUint)-1)
#define WB (WORD_SIZE * 8)
static void window(int k, asn1SccUint v) {
    asn1SccUint W = (asn1SccUint)rval(B, P0, WB), W0 = (asn1SccUint)rval(O, P0, WB);
    asn1SccUint low = k ? (k == WB ? 0 : WMASK >> k) : WMASK;
    CHECK((k ? W >> (WB - k) : 0) == v, "integer bits");
    CHECK(((W ^ W0) & low) == 0, "bits after the field changed");
    SAME_OUTSIDE(WB);
}
void w_int(void) {
    end_stream(72, CB);
    asn1SccUint v = (asn1SccUint)vin64(); int k = nb_of(v);
    CHECK(GetNumberOfBitsForNonNegativeInteger(v) == k, "number of bits");
    BitStream_EncodeNonNegativeInteger(&S, v); POS(k);
    window(k, v);
    if (k == WB - 1) REACH("end");
}
void w_intneg(void) {
    end_stream(72, CB);
    asn1SccUint v = (asn1SccUint)vin64(); flag neg = vin8() & 1; int k = nb_of(v);
    BitStream_EncodeNonNegativeIntegerNeg(&S, v, neg); POS(k);
    window(k, neg ? ~v & (k ? WMASK >> (WB - k) : 0) : v);
    if (k == WB - 1 && neg) REACH("end");
}
/* ---- reading ---- */
void r_bit(void) {
    any_stream(1); flag v; flag p = BitStream_PeekBit(&S); CHECK(spos(&S) == P0, "peek does not advance");
    CHECK(p == (flag)rbit(O, P0), "peeked bit");
    flag r = BitStream_ReadBit(&S, &v); CHECK(r, "read accepted"); POS(1); CHECK(v == (flag)rbit(O, P0), "read bit"); ALL_SAME(); REACH("end");
}
void r_byte(void) {
    any_stream(8); byte v; flag r = BitStream_ReadByte(&S, &v); CHECK(r, "read accepted"); POS(8);
    CHECK(v == rval(O, P0, 8), "read byte"); ALL_SAME(); if (P0 & 7) REACH("end");
}
void r_partial(void) {
    int k = (int)vin_range(1, 7); any_stream(k); byte v;
    flag r = BitStream_ReadPartialByte(&S, &v, (byte)k); CHECK(r, "read accepted"); POS(k);
    int i = (int)vin_range(0, 7);
    CHECK(((v >> i) & 1) == (i < k ? rbit(O, P0 + k - 1 - i) : 0), "partial byte read"); ALL_SAME(); if ((P0 & 7) + k > 8) REACH("end");
}
static void rarr(int what) {
    byte a[L + 1], a0[L + 1]; int i, k; for (i = 0; i <= L; i++) a[i] = a0[i] = vin8();
    int n = (int)vin_range(0, what == 1 ? L * 8 : L);
    flag r = 0;
    k = what == 1 ? n : n * 8;
    any_stream(k);
    if (what == 0) r = BitStream_ReadByteArray(&S, a, n);
    if (what == 1) r = BitStream_ReadBits(&S, a, n);
    if (what == 2) r = BitStream_DecodeOctetString_no_length(&S, a, n);
    CHECK(r, "read accepted"); POS(k);
    i = (int)vin_range(0, L * 8 + 7);
    if (i < k) CHECK(rbit(a, i) == rbit(O, P0 + i), "array content");
    else if (i < (k + 7) / 8 * 8) CHECK(rbit(a, i) == 0, "padding of the last byte is zero");
    else CHECK(rbit(a, i) == rbit(a0, i), "nothing written past the bytes asked for");
    ALL_SAME();
    if (k >= 24 && (P0 & 7)) REACH("end");
}
void r_bytearray(void) { rarr(0); }
void r_bits(void) { rarr(1); }
void r_octets(void) { rarr(2); }
static void r_int_k(int k, int cb) {
    asn1SccUint v;
    long p = NB * 8 - k; p -= ((p - cb) % 8 + 8) % 8;
    P0 = p; setpos(&S, P0);
    flag r = BitStream_DecodeNonNegativeInteger(&S, &v, k); CHECK(r, "read accepted"); POS(k);
    CHECK(v == (asn1SccUint)rval(O, P0, k), "integer read"); SAME_OUTSIDE(0);
    if (k == WORD_SIZE * 8 - 1) REACH("end");
}
void r_int(void) { end_stream(0, 0); SPLIT(k, 0, WORD_SIZE * 8, r_int_k(k, CB)); }
void r_pattern(void) {
    byte pat[3]; int k = (int)vin_range(0, 20), i; any_stream(0);
    for (i = 0; i < 3; i++) { pat[i] = vin8(); if (i * 8 + 8 > k) pat[i] = (byte)(i * 8 >= k ? 0 : pat[i] & (0xFF << (8 - (k - i * 8)))); }
    int r = BitStream_checkBitPatternPresent(&S, pat, (size_t)k);
    int same = 1;
    if (P0 + k > NB * 8) { CHECK(r == 0, "too short for the pattern"); POS(0); }
    else {
        for (i = 0; i < 20; i++) if (i < k && rbit(pat, i) != rbit(O, P0 + i)) same = 0;
        CHECK(r == (same ? 2 : 1), "pattern recognised exactly");
        POS(same ? k : 0);
        if (same && k > 9 && (P0 & 7)) REACH("match");
        if (!same && k > 9 && (P0 & 7)) REACH("nomatch");
    }
    ALL_SAME();
}
void b_misc(void) {
    any_stream(0);
    CHECK(BitStream_GetLength(&S) == (P0 + 7) / 8, "length in bytes");
    BitStream T; byte b[5]; int i;
    for (i = 0; i < 5; i++) b[i] = vin8();
    BitStream_Init(&T, b, 5);
    for (i = 0; i < 5; i++) CHECK(b[i] == 0, "initialised to zero");
    CHECK(T.count == 5 && T.currentByte == 0 && T.currentBit == 0 && T.buf == b, "initial state");
    T.currentBit = 3; T.currentByte = 2;
    b[2] = 7;
    BitStream_AttachBuffer(&T, b, 4);
    CHECK(T.count == 4 && T.currentByte == 0 && T.currentBit == 0 && b[2] == 7, "attach");
    ByteStream Y; ByteStream_Init(&Y, b, 5);
    for (i = 0; i < 5; i++) CHECK(b[i] == 0, "initialised to zero");
    CHECK(Y.count == 5 && ByteStream_GetLength(&Y) == 0, "byte stream initial state");
    REACH("end");
}
