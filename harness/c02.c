/* Every encoder of the runtime, in a buffer of exactly the octets its encoding needs. The encoding is made once in a
 * roomy buffer to know its length, then once more in a heap object of that many octets. */
#include "rtl.h"
#ifndef CB
#define CB 3
#endif
#ifndef W
#define W 8
#endif
#define CAP 40
static byte G[CAP];
static asn1SccUint U; static asn1SccSint I; static int a, b; static asn1SccUint ua, ub; static asn1SccSint sa, sb;
static byte P[12], D8[8]; static byte V; static flag NG; static asn1Real R; static Asn1ObjectIdentifier OID;
#define L 3
static char str[L + 1];
static byte abc[5] = "abcde";
static long e;
static void tight(int c, void (*f)(void)) {
    byte *buf = malloc((size_t)c); int i;
    ASSUME(buf != NULL);
    BitStream_Init(&S, buf, c); setpos(&S, CB);
    f();
    CHECK(spos(&S) == e, "as many bits as with room to spare");
    CHECK(S.currentBit >= 0 && S.currentBit < 8 && spos(&S) <= 8L * c, "the position stays inside the buffer");
    for (i = 0; i < c; i++) CHECK(buf[i] == G[i], "the same bits as with room to spare");
    REACH("any encoding");
    free(buf);
}
static void roomy(void (*f)(void)) { BitStream_Init(&S, G, CAP); setpos(&S, CB); f(); e = spos(&S); ASSUME(e > 0); }
#define ENC(n, cm, init, call) static void f_##n(void) { call; } \
    void e_##n(void) { init; roomy(f_##n); CHECK(e <= 8L * (cm), "no longer than its format"); SPLIT(c, 1, cm, (void)(ASSUME(c == (e + 7) / 8), tight(c, f_##n))); }
#undef ASSUME
#ifdef VH_CBMC
#define ASSUME(c) __CPROVER_assume(c)
#else
static void vh_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); exit(77); } }
#define ASSUME(c) vh_assume(c)
#endif
#define KR(lo, hi) a = (int)vin_range(lo, hi)
#define FILL(d, n) do { int i_; for (i_ = 0; i_ < (n); i_++) d[i_] = vin8(); } while (0)
ENC(Bit, 1, NG = vin8() & 1, BitStream_AppendBit(&S, NG))
ENC(BitOne, 1, , BitStream_AppendBitOne(&S))
ENC(BitZero, 1, , BitStream_AppendBitZero(&S))
ENC(NZero, 4, KR(0, 29), BitStream_AppendNBitZero(&S, a))
ENC(NOne, 4, KR(0, 29), BitStream_AppendNBitOne(&S, a))
ENC(Bits, 4, KR(0, 29); FILL(D8, 4), BitStream_AppendBits(&S, D8, a))
ENC(Byte, 2, V = vin8(); NG = vin8() & 1, BitStream_AppendByte(&S, V, NG))
ENC(Byte0, 2, V = vin8(), BitStream_AppendByte0(&S, V))
ENC(Partial, 2, V = vin8(); NG = vin8() & 1; KR(1, 7), BitStream_AppendPartialByte(&S, V & (byte)((1 << a) - 1), (byte)a, NG))
ENC(Bytes, 5, KR(0, 4); FILL(D8, 4), BitStream_AppendByteArray(&S, D8, a))
ENC(NonNeg, 9, U = (asn1SccUint)vin64(), BitStream_EncodeNonNegativeInteger(&S, U))
ENC(Uncon, 10, I = (asn1SccSint)vin64(), BitStream_EncodeUnConstraintWholeNumber(&S, I))
ENC(Semi, 10, I = (asn1SccSint)vin64(); sa = (asn1SccSint)vin64(); ASSUME(I >= sa), BitStream_EncodeSemiConstraintWholeNumber(&S, I, sa))
ENC(SemiPos, 10, U = (asn1SccUint)vin64(); ua = (asn1SccUint)vin64(); ASSUME(U >= ua), BitStream_EncodeSemiConstraintPosWholeNumber(&S, U, ua))
ENC(Con, 9, I = (asn1SccSint)vin64(); sa = (asn1SccSint)vin64(); sb = (asn1SccSint)vin64(); ASSUME(I >= sa && I <= sb), BitStream_EncodeConstraintWholeNumber(&S, I, sa, sb))
ENC(ConPos, 9, U = (asn1SccUint)vin64(); ua = (asn1SccUint)vin64(); ub = (asn1SccUint)vin64(); ASSUME(U >= ua && U <= ub), BitStream_EncodeConstraintPosWholeNumber(&S, U, ua, ub))
static const double RV[] = {0.0, 1.0, -1.5, 0.1, -1e300, 3e-310, 1.0 / 0.0, -1.0 / 0.0};
static void real1(void) { SPLIT(r, 0, 7, (void)(R = RV[r], BitStream_EncodeReal(&S, R))); }
#define REALS(k) ENC(Real##k, 14, R = RV[k], BitStream_EncodeReal(&S, R))
REALS(0) REALS(1) REALS(2) REALS(3) REALS(4) REALS(5) REALS(6) REALS(7)
#define OCT(n, lo) sa = lo; KR(lo, 4); FILL(D8, 4)
ENC(OctNoLen, 5, OCT(4, 0), BitStream_EncodeOctetString_no_length(&S, D8, a))
ENC(OctCon, 6, OCT(4, 0), BitStream_EncodeOctetString(&S, D8, a, 0, 4))
ENC(OctFrag, 6, OCT(4, 0), BitStream_EncodeOctetString_fragmentation(&S, D8, a))
ENC(OctBig, 6, OCT(4, 0), BitStream_EncodeOctetString(&S, D8, a, 0, 70000))
ENC(BitsCon, 5, KR(0, 20); FILL(D8, 3), BitStream_EncodeBitString(&S, D8, a, 0, 20))
ENC(BitsFix, 4, KR(0, 20); FILL(D8, 3), BitStream_EncodeBitString(&S, D8, a, a, a))
ENC(BitsBig, 5, KR(0, 20); FILL(D8, 3), BitStream_EncodeBitString(&S, D8, a, 0, 70000))
static void oid_(void) { int i; OID.nCount = 3; OID.values[0] = 2; OID.values[1] = vin8(); OID.values[2] = vin16(); }
ENC(Oid, 7, oid_(), ObjectIdentifier_uper_encode(&S, &OID))
ENC(RelOid, 7, oid_(), RelativeOID_uper_encode(&S, &OID))
#define Z(p) Acn_Enc_##p
#define UI U = (asn1SccUint)vin64(); I = (asn1SccSint)U
#define FITU(k) ASSUME((k) >= 8 * W || U >> ((k) & 63) == 0)
#define FITS(k) ASSUME((k) >= 8 * W || (I >= -((asn1SccSint)1 << (((k) - 1) & 63)) && I < (asn1SccSint)1 << (((k) - 1) & 63)))
ENC(PosK, 9, UI; KR(1, 8 * W); FITU(a), Z(Int_PositiveInteger_ConstSize)(&S, U, a))
ENC(TwoK, 9, UI; KR(1, 8 * W); FITS(a), Z(Int_TwosComplement_ConstSize)(&S, I, a))
#define FX(n, k, fn) ENC(n, (k) / 8 + 1, UI; ASSUME(U >> ((k) - 1) == 0 || (k) == 64), Z(fn)(&S, U))
FX(P8, 8, Int_PositiveInteger_ConstSize_8) FX(T8, 8, Int_TwosComplement_ConstSize_8)
FX(PB16, 16, Int_PositiveInteger_ConstSize_big_endian_16) FX(PL16, 16, Int_PositiveInteger_ConstSize_little_endian_16)
FX(TB16, 16, Int_TwosComplement_ConstSize_big_endian_16) FX(TL16, 16, Int_TwosComplement_ConstSize_little_endian_16)
FX(PB32, 32, Int_PositiveInteger_ConstSize_big_endian_32) FX(PL32, 32, Int_PositiveInteger_ConstSize_little_endian_32)
FX(TB32, 32, Int_TwosComplement_ConstSize_big_endian_32) FX(TL32, 32, Int_TwosComplement_ConstSize_little_endian_32)
FX(PB64, 64, Int_PositiveInteger_ConstSize_big_endian_64) FX(PL64, 64, Int_PositiveInteger_ConstSize_little_endian_64)
FX(TB64, 64, Int_TwosComplement_ConstSize_big_endian_64) FX(TL64, 64, Int_TwosComplement_ConstSize_little_endian_64)
ENC(PosVar, 10, UI, Z(Int_PositiveInteger_VarSize_LengthEmbedded)(&S, U))
ENC(TwoVar, 10, UI, Z(Int_TwosComplement_VarSize_LengthEmbedded)(&S, I))
#define SM 9999
#define SMALL U = vin_range(0, SM); I = (asn1SccSint)U; if (vin8() & 1) I = -I
ENC(BcdK, 4, SMALL; KR(4, 6), Z(Int_BCD_ConstSize)(&S, U, a))
ENC(BcdVar, 5, SMALL, Z(Int_BCD_VarSize_LengthEmbedded)(&S, U))
ENC(BcdNul, 5, SMALL, Z(Int_BCD_VarSize_NullTerminated)(&S, U))
ENC(SAK, 8, SMALL; KR(5, 7), Z(SInt_ASCII_ConstSize)(&S, I, a))
ENC(SAVar, 8, SMALL, Z(SInt_ASCII_VarSize_LengthEmbedded)(&S, I))
ENC(SANul, 9, SMALL; FILL(P, 2), Z(SInt_ASCII_VarSize_NullTerminated)(&S, I, P, 2))
ENC(UAK, 8, SMALL; KR(4, 7), Z(UInt_ASCII_ConstSize)(&S, U, a))
ENC(UAVar, 8, SMALL, Z(UInt_ASCII_VarSize_LengthEmbedded)(&S, U))
ENC(UANul, 8, SMALL; FILL(P, 2), Z(UInt_ASCII_VarSize_NullTerminated)(&S, U, P, 2))
static void rl(void) { uint64_t x = vin64(); double d; memcpy(&d, &x, 8); R = (asn1Real)d; }
static void rl32(void) { uint32_t x = vin32(); float d; memcpy(&d, &x, 4); R = (asn1Real)d; ASSUME(R == R); }
ENC(RB64, 9, rl(); ASSUME(R == R), Z(Real_IEEE754_64_big_endian)(&S, R)) ENC(RL64, 9, rl(); ASSUME(R == R), Z(Real_IEEE754_64_little_endian)(&S, R))
ENC(RB32, 5, rl32(), Z(Real_IEEE754_32_big_endian)(&S, R)) ENC(RL32, 5, rl32(), Z(Real_IEEE754_32_little_endian)(&S, R))
static void st(int fix) { int i, n = fix ? L : (int)vin_range(0, L); for (i = 0; i < L; i++) { str[i] = (char)(vin8() & 0x7F); if (i < n) ASSUME(str[i] != 0); else str[i] = 0; } str[L] = 0; a = n; }
static void sx(int fix) { int i, n = fix ? L : (int)vin_range(0, L); for (i = 0; i < L; i++) { str[i] = (char)('a' + vin_range(0, 4)); if (i >= n) str[i] = 0; } str[L] = 0; a = n; }
ENC(StrFix, 4, st(1), Z(String_Ascii_FixSize)(&S, L, str))
ENC(StrNul, 5, st(0); P[0] = 0, Z(String_Ascii_Null_Terminated)(&S, L, 0, str))
ENC(StrMul, 6, st(0); FILL(P, 2), Z(String_Ascii_Null_Terminated_mult)(&S, L, P, 2, str))
ENC(StrExt, 4, st(0), Z(String_Ascii_External_Field_Determinant)(&S, L, str))
ENC(StrInl, 5, st(0), Z(String_Ascii_Internal_Field_Determinant)(&S, L, 0, str))
ENC(StrCFix, 2, sx(1), Z(String_CharIndex_FixSize)(&S, L, abc, 5, str))
ENC(StrCExt, 2, sx(0), Z(String_CharIndex_External_Field_Determinant)(&S, L, abc, 5, str))
ENC(StrCInl, 2, sx(0), Z(String_CharIndex_Internal_Field_Determinant)(&S, L, abc, 5, 0, str))
ENC(StrIExt, 4, st(0), Z(IA5String_CharIndex_External_Field_Determinant)(&S, L, str))
ENC(StrIInl, 4, st(0), Z(IA5String_CharIndex_Internal_Field_Determinant)(&S, L, 0, str))
ENC(Len, 9, UI; KR(1, 8 * W); FITU(a), Z(Length)(&S, U, a))
