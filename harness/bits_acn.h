/* ACN primitives whose loops run over the value: replaced by what C10, C11 and C14 decide of them. Lengths are those of
 * the shape: HINT for numbers, SLEN for strings, DH for what the decoder has to find out by itself. Not in the decoder
 * check on arbitrary input, where the real ones run. */
#ifndef BITS_ACN_H
#define BITS_ACN_H
static const uint64_t P10[20] = {1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL, 100000000ULL, 1000000000ULL, 10000000000ULL, 100000000000ULL, 1000000000000ULL,
    10000000000000ULL, 100000000000000ULL, 1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL, 1000000000000000000ULL, 10000000000000000000ULL};
static inline void pdig(BitStream *p, uint64_t v, int k, int w, int base) {
    int i;
    CHECK(k >= 20 || v < P10[k], "a number has more digits than its field");
    for (i = k - 1; i >= 0; i--) gput(p, (uint64_t)base + (v / P10[i]) % 10, w);
}
/* the digits read are the ones written when they are digits at all; they are put together again digit by digit */
static inline flag gdig(BitStream *p, uint64_t *v, int k, int w, int base) {
    int i; uint64_t x = 0, d; flag ok = TRUE;
    for (i = 0; i < k; i++) {
        if (!room(p, w)) return FALSE;
        d = gget(p, w) - (uint64_t)base;
        if (d > 9) ok = FALSE;
        x = x * 10 + d;
    }
    *v = x;
    return ok;
}
static inline uint64_t mag(asn1SccSint v) { return v >= 0 ? (uint64_t)v : 0 - (uint64_t)v; }
void Acn_Enc_Int_PositiveInteger_ConstSize(BitStream *p, asn1SccUint v, int n) { CHECK(n >= 64 || v < (1ULL << n), "a number is larger than its field"); gput(p, v, n); }
void Acn_Enc_Int_TwosComplement_ConstSize(BitStream *p, asn1SccSint v, int n) { CHECK(n >= 64 || (v >= -(1LL << (n - 1)) && v < (1LL << (n - 1))), "a number is larger than its field"); gput(p, (uint64_t)v, n); }
void Acn_Enc_Int_BCD_ConstSize(BitStream *p, asn1SccUint v, int n) { pdig(p, v, n, 4, 0); }
void Acn_Enc_UInt_ASCII_ConstSize(BitStream *p, asn1SccUint v, int n) { pdig(p, v, n, 8, '0'); }
void Acn_Enc_SInt_ASCII_ConstSize(BitStream *p, asn1SccSint v, int n) { gput(p, v >= 0 ? '+' : '-', 8); pdig(p, mag(v), n - 1, 8, '0'); }
static inline void term(BitStream *p, const byte t[], size_t n) { size_t i; for (i = 0; i < n; i++) gput(p, t[i], 8); }
static inline int hdig(uint64_t v) { int k = HINT[HP++]; CHECK((k >= 20 || v < P10[k]) && (k == 0 ? v == 0 : k == 1 || v >= P10[k - 1]), "the length of a number is not the expected one"); return k; }
void Acn_Enc_Int_BCD_VarSize_NullTerminated(BitStream *p, asn1SccUint v) { pdig(p, v, hdig(v), 4, 0); gput(p, 0xF, 4); }
void Acn_Enc_UInt_ASCII_VarSize_NullTerminated(BitStream *p, asn1SccUint v, const byte t[], size_t n) { pdig(p, v, hdig(v), 8, '0'); term(p, t, n); }
void Acn_Enc_SInt_ASCII_VarSize_NullTerminated(BitStream *p, asn1SccSint v, const byte t[], size_t n) { gput(p, v >= 0 ? '+' : '-', 8); pdig(p, mag(v), hdig(mag(v)), 8, '0'); term(p, t, n); }
/* strings */
static inline int slen(const char *s, asn1SccSint max) { long n = (long)strlen(s); return (int)(n <= max ? n : max); }
static inline void pascii(BitStream *p, const char *s, int n) { int i; for (i = 0; i < n; i++) gput(p, (byte)s[i], 8); }
static inline void pindex(BitStream *p, const char *s, int n, byte set[], int k) { int i; for (i = 0; i < n; i++) gput(p, (uint64_t)GetCharIndex(s[i], set, k), wid((uint64_t)k - 1)); }
void Acn_Enc_String_Ascii_Null_Terminated(BitStream *p, asn1SccSint max, char t, const char *s) { pascii(p, s, slen(s, max)); gput(p, (byte)t, 8); }
void Acn_Enc_String_Ascii_Null_Terminated_mult(BitStream *p, asn1SccSint max, const byte t[], size_t n, const char *s) { pascii(p, s, slen(s, max)); term(p, t, n); }
void Acn_Enc_String_Ascii_External_Field_Determinant(BitStream *p, asn1SccSint max, const char *s) { pascii(p, s, slen(s, max)); }
void Acn_Enc_String_Ascii_Internal_Field_Determinant(BitStream *p, asn1SccSint max, asn1SccSint min, const char *s) { int n = slen(s, max); BitStream_EncodeConstraintWholeNumber(p, n, min, max); pascii(p, s, n); }
void Acn_Enc_String_CharIndex_External_Field_Determinant(BitStream *p, asn1SccSint max, byte set[], int k, const char *s) { pindex(p, s, slen(s, max), set, k); }
void Acn_Enc_String_CharIndex_Internal_Field_Determinant(BitStream *p, asn1SccSint max, byte set[], int k, asn1SccSint min, const char *s) { int n = slen(s, max); BitStream_EncodeConstraintWholeNumber(p, n, min, max); pindex(p, s, n, set, k); }
static inline void p7(BitStream *p, const char *s, int n) { int i; for (i = 0; i < n; i++) gput(p, (byte)s[i], 7); }
void Acn_Enc_IA5String_CharIndex_External_Field_Determinant(BitStream *p, asn1SccSint max, const char *s) { p7(p, s, slen(s, max)); }
void Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant(BitStream *p, asn1SccSint max, asn1SccSint min, const char *s) { int n = slen(s, max); BitStream_EncodeConstraintWholeNumber(p, n, min, max); p7(p, s, n); }
/* decoding of what the encoder has written: where the end is found by looking, the shape knows it */
static inline flag sterm(BitStream *p, asn1SccSint max, const byte t[], size_t n, char *s) {
    int L = DH[DHP++], i, j;
    memset(s, 0, (size_t)max + 1);
    CHECK(L <= max, "the string is longer than its array");
    if (!room(p, 8 * (L + (int)n))) return FALSE;
    for (i = 0; i <= L; i++) {
        int same = 1;
        for (j = 0; j < (int)n; j++) { long q = BUFP(p) + 8 * j; uint64_t x = 0; int b; for (b = 0; b < 8; b++) x = (x << 1) | BIT[q + b]; same &= x == t[j]; }
        if (i < L) { CHECK(!same, "the terminator occurs in the string"); s[i] = (char)gget(p, 8); }
        else CHECK(same, "there is no terminator after the string");
    }
    adv(p, 8 * (int)n);
    return TRUE;
}
flag Acn_Dec_String_Ascii_Null_Terminated(BitStream *p, asn1SccSint max, char t, char *s) { byte b = (byte)t; return sterm(p, max, &b, 1, s); }
flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream *p, asn1SccSint max, const byte t[], size_t n, char *s) { return sterm(p, max, t, n, s); }
flag Acn_Dec_Int_BCD_ConstSize(BitStream *p, asn1SccUint *v, int n) { return gdig(p, v, n, 4, 0); }
flag Acn_Dec_UInt_ASCII_ConstSize(BitStream *p, asn1SccUint *v, int n) { return gdig(p, v, n, 8, '0'); }
static inline flag sgn(BitStream *p, int *neg) { byte b; if (!room(p, 8)) return FALSE; b = (byte)gget(p, 8); *neg = b == '-'; return b == '-' || b == '+'; }
flag Acn_Dec_SInt_ASCII_ConstSize(BitStream *p, asn1SccSint *v, int n) { int neg; uint64_t x; if (!sgn(p, &neg) || !gdig(p, &x, n - 1, 8, '0')) return FALSE; *v = neg ? (asn1SccSint)(0 - x) : (asn1SccSint)x; return TRUE; }
static inline flag gterm(BitStream *p, const byte t[], size_t n) { size_t i; for (i = 0; i < n; i++) { if (!room(p, 8)) return FALSE; CHECK(gget(p, 8) == t[i], "there is no terminator after the number"); } return TRUE; }
flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream *p, asn1SccUint *v) { if (!gdig(p, v, DH[DHP++], 4, 0) || !room(p, 4)) return FALSE; CHECK(gget(p, 4) == 0xF, "there is no terminator after the number"); return TRUE; }
flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream *p, asn1SccUint *v, const byte t[], size_t n) { return gdig(p, v, DH[DHP++], 8, '0') && gterm(p, t, n); }
flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream *p, asn1SccSint *v, const byte t[], size_t n) { int neg; uint64_t x; if (!sgn(p, &neg) || !gdig(p, &x, DH[DHP++], 8, '0') || !gterm(p, t, n)) return FALSE; *v = neg ? (asn1SccSint)(0 - x) : (asn1SccSint)x; return TRUE; }
#endif
