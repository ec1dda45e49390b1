/* Every decoder of the runtime, on an input of any content and of every length up to what it needs.
 * The input is a heap object of exactly that many bytes; destinations have exactly the capacity told. */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#ifndef PK
#define PK 8
#endif
#define CAP 80
static byte G[CAP];
static uint64_t U64; static asn1SccUint U; static asn1SccSint I; static uint8_t U8; static uint16_t U16; static uint32_t U32;
static int8_t I8; static int16_t I16; static int32_t I32; static flag FL; static asn1Real R; static float F32; static int N;
static int a, b; static asn1SccUint ua, ub; static asn1SccSint sa, sb; static byte P[12], Q[12];
static flag with(int c, flag (*f)(void)) {
    byte *buf = malloc((size_t)c + (c == 0)); int i; flag r;
    ASSUME(buf != NULL);
    for (i = 0; i < c; i++) buf[i] = G[i];
    if (c == 0) { free(buf); buf = G; BitStream_AttachBuffer(&S, G + CAP, 0); setpos(&S, 0); }
    else { BitStream_AttachBuffer(&S, buf, c); setpos(&S, CB); }
    r = f();
    if (r) CHECK(spos(&S) >= 0 && spos(&S) <= 8L * c && S.currentBit >= 0 && S.currentBit < 8, "read position inside the input after success");
    if (c) free(buf);
    return r;
}
static void safe1(int c, flag (*f)(void)) { flag r = with(c, f); if (r) REACH("any success"); else REACH("any failure"); }
static void cut1(int c, int full, flag (*f)(void)) {
    flag r = with(full, f); long e = spos(&S);
    if (!r || e <= 8L * c || e == CB) return;
    REACH("any cut"); CHECK(!with(c, f), "an encoding cut short is refused");
}
static void fill(int n) { int i; for (i = 0; i < n; i++) G[i] = vin8(); }
#ifndef BMAX
#define BMAX 10
#endif
/* DEC(name, most bytes it needs, parameters, call) */
#define DEC(n, cm, init, call) static flag f_##n(void) { return call; } \
    void s_##n(void) { fill(cm); init; SPLIT(c, 0, cm, safe1(c, f_##n)); } \
    void t_##n(void) { fill(cm); init; SPLIT(c, 0, cm - 1, cut1(c, cm, f_##n)); }
#define D0(n, cm, fn, dst) DEC(n, cm, , fn(&S, &dst))
#define KR(lo, hi) a = (int)vin_range(lo, hi)
#define DK(n, cm, fn, dst, hi) DEC(n, cm, KR(1, hi), fn(&S, &dst, a))
#define URANGE ua = (asn1SccUint)vin64(); ub = (asn1SccUint)vin64(); ASSUME(ua <= ub)
#define SRANGE sa = (asn1SccSint)vin64(); sb = (asn1SccSint)vin64(); ASSUME(sa <= sb)
#define PAT(n) do { int i_; for (i_ = 0; i_ < (n); i_++) { P[i_] = vin8(); Q[i_] = vin8(); } } while (0)
DEC(ReadBit, 2, , BitStream_ReadBit(&S, &FL))
DEC(PeekBit, 2, ASSUME(1), (spos(&S) < 8L * S.count ? BitStream_PeekBit(&S), 1 : 0))
D0(ReadByte, 2, BitStream_ReadByte, U8)
DEC(ReadPartialByte, 2, KR(1, 8), BitStream_ReadPartialByte(&S, &U8, (byte)a))
static byte dst8[8];
DEC(ReadByteArray, 6, KR(0, 5), BitStream_ReadByteArray(&S, dst8 + (8 - a), a))
DEC(ReadBits, 5, KR(0, 32), BitStream_ReadBits(&S, dst8 + (8 - (a + 7) / 8), a))
DEC(NonNeg, 9, KR(0, WORD_SIZE * 8), BitStream_DecodeNonNegativeInteger(&S, &U, a))
DEC(Uncon, BMAX, , BitStream_DecodeUnConstraintWholeNumber(&S, &I))
DEC(Semi, BMAX, sa = (asn1SccSint)vin64(), BitStream_DecodeSemiConstraintWholeNumber(&S, &I, sa))
DEC(SemiPos, BMAX, ua = (asn1SccUint)vin64(), BitStream_DecodeSemiConstraintPosWholeNumber(&S, &U, ua))
DEC(Con, BMAX, SRANGE, BitStream_DecodeConstraintWholeNumber(&S, &I, sa, sb))
DEC(ConPos, BMAX, URANGE, BitStream_DecodeConstraintPosWholeNumber(&S, &U, ua, ub))
DEC(Con8, 2, sa = (int8_t)vin8(); sb = (int8_t)vin8(); ASSUME(sa <= sb), BitStream_DecodeConstraintWholeNumberInt8(&S, &I8, (int8_t)sa, (int8_t)sb))
DEC(Con16, 3, sa = (int16_t)vin16(); sb = (int16_t)vin16(); ASSUME(sa <= sb), BitStream_DecodeConstraintWholeNumberInt16(&S, &I16, (int16_t)sa, (int16_t)sb))
DEC(Con32, 5, sa = (int32_t)vin32(); sb = (int32_t)vin32(); ASSUME(sa <= sb), BitStream_DecodeConstraintWholeNumberInt32(&S, &I32, (int32_t)sa, (int32_t)sb))
DEC(ConU8, 2, ua = vin8(); ub = vin8(); ASSUME(ua <= ub), BitStream_DecodeConstraintPosWholeNumberUInt8(&S, &U8, (uint8_t)ua, (uint8_t)ub))
DEC(ConU16, 3, ua = vin16(); ub = vin16(); ASSUME(ua <= ub), BitStream_DecodeConstraintPosWholeNumberUInt16(&S, &U16, (uint16_t)ua, (uint16_t)ub))
DEC(ConU32, 5, ua = vin32(); ub = vin32(); ASSUME(ua <= ub), BitStream_DecodeConstraintPosWholeNumberUInt32(&S, &U32, (uint32_t)ua, (uint32_t)ub))
/* strings: room for exactly the maximum */
#define MX 3
static byte dstm[MX];
DEC(OctNoLen, 5, KR(0, 4), BitStream_DecodeOctetString_no_length(&S, dst8 + (8 - a), a))
DEC(OctCon, 5, sa = (int)vin_range(0, MX); sb = MX, BitStream_DecodeOctetString(&S, dstm, &N, sa, sb))
DEC(BitFix, 3, KR(0, 10), BitStream_DecodeBitString(&S, dst8 + (8 - (a + 7) / 8), &N, a, a))
DEC(BitCon, 5, sa = (int)vin_range(0, 20), BitStream_DecodeBitString(&S, dstm, &N, sa, 20))
DEC(Pat, 4, KR(1, 20); PAT(3), (BitStream_checkBitPatternPresent(&S, P, (size_t)a) == 2))
DEC(BitsNul, 4, PAT(2), BitStream_ReadBits_nullterminated(&S, P, PK, dstm, 17, &N))
DEC(BoolPat, 4, KR(1, 20); PAT(3), BitStream_ReadBitPattern(&S, P, a, &FL))
DEC(BoolTF, 4, KR(1, 20); PAT(3), BitStream_DecodeTrueFalseBoolean(&S, P, Q, a, &FL))
DEC(BoolIgn, 4, KR(1, 20), BitStream_ReadBitPattern_ignore_value(&S, a))
#ifndef OMAX
#define OMAX 3
#endif
static Asn1ObjectIdentifier OID;
DEC(Oid, OMAX, , ObjectIdentifier_uper_decode(&S, &OID))
DEC(RelOid, OMAX, , RelativeOID_uper_decode(&S, &OID))
/* ACN integers */
#define Z(p) Acn_Dec_##p
DK(PosK, 9, Z(Int_PositiveInteger_ConstSize), U, WORD_SIZE * 8)
DK(TwoK, 9, Z(Int_TwosComplement_ConstSize), I, WORD_SIZE * 8)
DEC(Len, 9, KR(1, WORD_SIZE * 8), Acn_Dec_Length(&S, &U, a))
DK(PosK8, 2, Z(Int_PositiveInteger_ConstSizeUInt8), U8, 8)
DK(PosK16, 3, Z(Int_PositiveInteger_ConstSizeUInt16), U16, 16)
DK(PosK32, 5, Z(Int_PositiveInteger_ConstSizeUInt32), U32, 32)
DK(TwoK8, 2, Z(Int_TwosComplement_ConstSizeInt8), I8, 8)
DK(TwoK16, 3, Z(Int_TwosComplement_ConstSizeInt16), I16, 16)
DK(TwoK32, 5, Z(Int_TwosComplement_ConstSizeInt32), I32, 32)
/* fixed sizes, all in one function: the choice of decoder is an input too */
static int sel;
static flag f_fix(void) {
    switch (sel) {
#define C(n, call) case n: return call;
    C(0, Z(Int_PositiveInteger_ConstSize_8)(&S, &U)) C(1, Z(Int_PositiveInteger_ConstSize_8UInt8)(&S, &U8))
    C(2, Z(Int_TwosComplement_ConstSize_8)(&S, &I)) C(3, Z(Int_TwosComplement_ConstSize_8Int8)(&S, &I8))
#define W16(o, e) C(o, Z(Int_PositiveInteger_ConstSize_##e##_16)(&S, &U)) C(o + 1, Z(Int_PositiveInteger_ConstSize_##e##_16UInt16)(&S, &U16)) C(o + 2, Z(Int_PositiveInteger_ConstSize_##e##_16UInt8)(&S, &U8)) \
    C(o + 3, Z(Int_TwosComplement_ConstSize_##e##_16)(&S, &I)) C(o + 4, Z(Int_TwosComplement_ConstSize_##e##_16Int16)(&S, &I16)) C(o + 5, Z(Int_TwosComplement_ConstSize_##e##_16Int8)(&S, &I8))
#define W32(o, e) C(o, Z(Int_PositiveInteger_ConstSize_##e##_32)(&S, &U)) C(o + 1, Z(Int_PositiveInteger_ConstSize_##e##_32UInt32)(&S, &U32)) C(o + 2, Z(Int_PositiveInteger_ConstSize_##e##_32UInt16)(&S, &U16)) C(o + 3, Z(Int_PositiveInteger_ConstSize_##e##_32UInt8)(&S, &U8)) \
    C(o + 4, Z(Int_TwosComplement_ConstSize_##e##_32)(&S, &I)) C(o + 5, Z(Int_TwosComplement_ConstSize_##e##_32Int32)(&S, &I32)) C(o + 6, Z(Int_TwosComplement_ConstSize_##e##_32Int16)(&S, &I16)) C(o + 7, Z(Int_TwosComplement_ConstSize_##e##_32Int8)(&S, &I8))
#define W64(o, e) C(o, Z(Int_PositiveInteger_ConstSize_##e##_64)(&S, &U)) C(o + 1, Z(Int_PositiveInteger_ConstSize_##e##_64UInt32)(&S, &U32)) C(o + 2, Z(Int_PositiveInteger_ConstSize_##e##_64UInt16)(&S, &U16)) C(o + 3, Z(Int_PositiveInteger_ConstSize_##e##_64UInt8)(&S, &U8)) \
    C(o + 4, Z(Int_TwosComplement_ConstSize_##e##_64)(&S, &I)) C(o + 5, Z(Int_TwosComplement_ConstSize_##e##_64Int32)(&S, &I32)) C(o + 6, Z(Int_TwosComplement_ConstSize_##e##_64Int16)(&S, &I16)) C(o + 7, Z(Int_TwosComplement_ConstSize_##e##_64Int8)(&S, &I8))
    W16(4, big_endian) W16(10, little_endian) W32(16, big_endian) W32(24, little_endian) W64(32, big_endian) W64(40, little_endian)
    C(48, Z(Real_IEEE754_32_big_endian)(&S, &R)) C(49, Z(Real_IEEE754_64_big_endian)(&S, &R)) C(50, Z(Real_IEEE754_32_little_endian)(&S, &R)) C(51, Z(Real_IEEE754_64_little_endian)(&S, &R))
    C(52, Z(Real_IEEE754_32_big_endian_fp32)(&S, &F32)) C(53, Z(Real_IEEE754_32_little_endian_fp32)(&S, &F32))
    }
    return 0;
}
#ifndef SLO
#define SLO 0
#define SHI 53
#endif
static void fix_s(int s) { sel = s; SPLIT(c, 0, 9, safe1(c, f_fix)); }
static void fix_t(int s) { sel = s; SPLIT(c, 0, 8, cut1(c, 9, f_fix)); }
void s_Fix(void) { fill(9); SPLIT(s, SLO, SHI, fix_s(s)); }
void t_Fix(void) { fill(9); SPLIT(s, SLO, SHI, fix_t(s)); }
/* length inside */
#define DL(n, cm, p, u, t) D0(n, cm, Acn_Dec_##p, u) D0(n##8, cm, Acn_Dec_##p##t##8, u##8) D0(n##16, cm, Acn_Dec_##p##t##16, u##16) D0(n##32, cm, Acn_Dec_##p##t##32, u##32)
#ifndef VMAX
#define VMAX 5
#endif
DL(PosVar, BMAX, Int_PositiveInteger_VarSize_LengthEmbedded, U, UInt)
DL(TwoVar, BMAX, Int_TwosComplement_VarSize_LengthEmbedded, I, Int)
DL(BcdVar, VMAX, Int_BCD_VarSize_LengthEmbedded, U, UInt)
DL(BcdNul, VMAX, Int_BCD_VarSize_NullTerminated, U, UInt)
DL(SAVar, VMAX, SInt_ASCII_VarSize_LengthEmbedded, I, Int)
DL(UAVar, VMAX, UInt_ASCII_VarSize_LengthEmbedded, U, UInt)
#define DN(n, cm, p, u, t) DEC(n, cm, PAT(2), Acn_Dec_##p(&S, &u, P, 2)) DEC(n##8, cm, PAT(2), Acn_Dec_##p##t##8(&S, &u##8, P, 2)) DEC(n##16, cm, PAT(2), Acn_Dec_##p##t##16(&S, &u##16, P, 2)) DEC(n##32, cm, PAT(2), Acn_Dec_##p##t##32(&S, &u##32, P, 2))
DN(SANul, VMAX, SInt_ASCII_VarSize_NullTerminated, I, Int)
DN(UANul, VMAX, UInt_ASCII_VarSize_NullTerminated, U, UInt)
#define DC(n, cm, p, u, t, hi) DK(n, cm, Acn_Dec_##p, u, hi) DK(n##8, cm, Acn_Dec_##p##t##8, u##8, hi) DK(n##16, cm, Acn_Dec_##p##t##16, u##16, hi) DK(n##32, cm, Acn_Dec_##p##t##32, u##32, hi)
DC(BcdK, VMAX, Int_BCD_ConstSize, U, UInt, 2 * VMAX - 2)
DC(SAK, VMAX, SInt_ASCII_ConstSize, I, Int, VMAX - 1)
DC(UAK, VMAX, UInt_ASCII_ConstSize, U, UInt, VMAX - 1)
/* ACN character strings: max L characters and the terminator */
#define L 3
static char str[L + 1];
static byte abc[5] = "abcde";
DEC(StrFix, 5, , Acn_Dec_String_Ascii_FixSize(&S, L, str))
DEC(StrNul, 6, P[0] = vin8(), Acn_Dec_String_Ascii_Null_Terminated(&S, L, (char)P[0], str))
DEC(StrMul, 7, PAT(2), Acn_Dec_String_Ascii_Null_Terminated_mult(&S, L, P, 2, str))
DEC(StrExt, 5, sa = (asn1SccSint)vin64(), Acn_Dec_String_Ascii_External_Field_Determinant(&S, L, sa, str))
DEC(StrInl, 5, sa = (int)vin_range(0, L), Acn_Dec_String_Ascii_Internal_Field_Determinant(&S, L, sa, str))
DEC(StrCFix, 3, , Acn_Dec_String_CharIndex_FixSize(&S, L, abc, 5, str))
DEC(StrCExt, 3, sa = (asn1SccSint)vin64(), Acn_Dec_String_CharIndex_External_Field_Determinant(&S, L, abc, 5, sa, str))
DEC(StrCInl, 3, sa = (int)vin_range(0, L), Acn_Dec_String_CharIndex_Internal_Field_Determinant(&S, L, abc, 5, sa, str))
DEC(StrIExt, 4, sa = (asn1SccSint)vin64(), Acn_Dec_IA5String_CharIndex_External_Field_Determinant(&S, L, sa, str))
DEC(StrIInl, 5, sa = (int)vin_range(0, L), Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(&S, L, sa, str))
/* alignment never leaves the position outside */
