/* Packets of 0..MAXP octets in streams of that size */
#include "rtl.h"
#include "BasicTypes.h"
#include "PacketErrorControl.h"
#include "PacketLength.h"
#include "UInt16Coder.h"
#include "Errors.h"
#include "Crc.h"
#include "IsoChecksum.h"
flag TPUSC_UINT16_ACN_Encode(const TPUSC_UINT16 *v, BitStream *s, int *err, flag check) { Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(s, *v); return 1; }
flag TPUSC_UINT16_ACN_Decode(TPUSC_UINT16 *v, BitStream *s, int *err) { flag r = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(s, v); *err = r ? 0 : 99; return r; }
#ifndef MAXP
#define MAXP 8
#endif
static uint8_t W[MAXP + 1], V[MAXP + 1];
static int err;
static void open_(int n) { int i; for (i = 0; i < n; i++) W[i] = V[i] = vin8(); BitStream_AttachBuffer(&S, W, n ? n : 1); S.currentByte = n; }
static Asn1PuscLib_PacketErrorControl_Type T;
/* the checksums themselves: C23 and C24; here any value, the same for the same octets */
static uint16_t C; static int cn, calls;
static uint16_t sum(const uint8_t *d, size_t n, int crc) {
    int i;
    CHECK(crc == (T == Asn1PuscLib_PacketErrorControl_Type_Crc), "the checksum asked for");
    CHECK((long)n == cn, "over the packet without its error control");
    for (i = 0; i < cn; i++) CHECK(d[i] == V[i], "over the packet");
    calls++;
    return C;
}
uint16_t Asn1PuscLib_Crc_calculate(const uint8_t *d, size_t n) { return sum(d, n, 1); }
uint16_t Asn1PuscLib_IsoChecksum_calculate(const uint8_t *d, size_t n) { return sum(d, n, 0); }
static void type(int t) { T = t ? Asn1PuscLib_PacketErrorControl_Type_Crc : Asn1PuscLib_PacketErrorControl_Type_Iso; }
static void upd1(int n) {
    flag r; int i;
    C = vin16(); cn = n - 2; open_(n); r = Asn1PuscLib_PacketErrorControl_update(&S, T, &err);
    CHECK(r == (n > 2), "a packet longer than its error control is needed");
    CHECK(S.currentByte == n && S.currentBit == 0, "the stream stays where it is");
    if (!r) { CHECK(err == Asn1PuscLib_ErrorCodes_MessageTooShort, "the error code"); for (i = 0; i < n; i++) CHECK(W[i] == V[i], "nothing is written"); REACH("any short"); return; }
    CHECK(calls == 1, "the checksum is computed");
    REACH("any packet");
    for (i = 0; i < n - 2; i++) CHECK(W[i] == V[i], "the packet stays as it is");
    CHECK(W[n - 2] == C >> 8 && W[n - 1] == (C & 0xFF), "the last two octets hold the error control");
    CHECK(Asn1PuscLib_PacketErrorControl_validate(&S, T, &err), "what the encoder makes passes the check");
}
static void val1(int n) {
    flag r; int i;
    C = vin16(); cn = n - 2; open_(n); r = Asn1PuscLib_PacketErrorControl_validate(&S, T, &err);
    for (i = 0; i < n; i++) CHECK(W[i] == V[i], "checking changes nothing");
    CHECK(S.currentByte == n && S.currentBit == 0, "the stream stays where it is");
    if (n <= 2) { CHECK(!r && err == Asn1PuscLib_ErrorCodes_MessageTooShort, "too short"); REACH("any short"); return; }
    CHECK(r == (C == (V[n - 2] << 8 | V[n - 1])), "the check accepts exactly the right error control");
    if (!r) CHECK(err == Asn1PuscLib_ErrorCodes_BadChecksum, "the error code");
    if (r) REACH("any good"); else REACH("any bad");
}
static void upd2(int t) { type(t); SPLIT(n, 0, MAXP, upd1(n)); }
static void val2(int t) { type(t); SPLIT(n, 0, MAXP, val1(n)); }
void upd(void) { SPLIT(t, 0, 1, upd2(t)); }
void val(void) { SPLIT(t, 0, 1, val2(t)); }
/* length: any packet length, the octets of the header only */
static uint8_t HB[16];
static void len_open(long n) { int i; for (i = 0; i < 16; i++) HB[i] = O[i < NB ? i : 0] = vin8(); BitStream_AttachBuffer(&S, HB, n ? n : 1); S.currentByte = n; }
#define OKLEN(n, m) ((n) > 6 && (n) <= (m) && (n) <= 65536)
void lupd(void) {
    long n = (long)vin32() & 0x1FFFF; size_t m = (size_t)vin32(); flag r; int i; uint8_t H0[16];
    len_open(n); for (i = 0; i < 16; i++) H0[i] = HB[i];
    r = Asn1PuscLib_PacketLength_update(&S, m, &err);
    CHECK(r == OKLEN((size_t)n, m), "the lengths that can be sent");
    CHECK(S.currentByte == n && S.currentBit == 0, "the stream stays where it is");
    for (i = 0; i < 16; i++) if (!r || (i != 4 && i != 5)) CHECK(HB[i] == H0[i], "no other octet changes");
    if (!r) { CHECK(err == (n <= 6 ? Asn1PuscLib_ErrorCodes_MessageTooShort : Asn1PuscLib_ErrorCodes_MessageTooLong), "the error code"); REACH("any refused"); return; }
    REACH("any length");
    CHECK((HB[4] << 8 | HB[5]) == n - 7, "length minus header minus one");
    CHECK(Asn1PuscLib_PacketLength_validate(&S, m, &err), "what the encoder makes passes the check");
}
void lval(void) {
    long n = (long)vin32() & 0x1FFFF; size_t m = (size_t)vin32(); flag r, ok; int i; uint8_t H0[16];
    len_open(n); for (i = 0; i < 16; i++) H0[i] = HB[i];
    r = Asn1PuscLib_PacketLength_validate(&S, m, &err);
    ok = OKLEN((size_t)n, m) && (H0[4] << 8 | H0[5]) == n - 7;
    CHECK(r == ok, "the check accepts exactly the right length");
    for (i = 0; i < 16; i++) CHECK(HB[i] == H0[i], "checking changes nothing");
    CHECK(S.currentByte == n && S.currentBit == 0, "the stream stays where it is");
    if (!r) CHECK(err == (n <= 6 ? Asn1PuscLib_ErrorCodes_MessageTooShort : !OKLEN((size_t)n, m) ? Asn1PuscLib_ErrorCodes_MessageTooLong : Asn1PuscLib_ErrorCodes_BadLength), "the error code");
    if (r) REACH("any good"); else REACH("any bad");
}
/* the field coder: any position, any length of the stream */
void coder(void) {
    uint16_t v = vin16(); int i; uint8_t H0[16];
    for (i = 0; i < 16; i++) H0[i] = HB[i] = vin8();
    BitStream_AttachBuffer(&S, HB, 16); S.currentByte = 9; S.currentBit = 3;
    { SPLIT(o, 0, 14, { Asn1PuscLib_UInt16Coder_encode(&S, o, v);
        for (i = 0; i < 16; i++) CHECK(HB[i] == (i == o ? v >> 8 : i == o + 1 ? v & 0xFF : H0[i]), "two octets, most significant first");
        REACH("any offset");
        CHECK(Asn1PuscLib_UInt16Coder_decode(&S, o) == v, "read back");
        CHECK(S.currentByte == 9 && S.currentBit == 3 && S.buf == HB && S.count == 16, "the stream stays as it is"); }); }
}
