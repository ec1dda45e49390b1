/* ACN strings: layout, lossless decoding, arbitrary input. L: maximum length of this process. */
#include "rtl.h"
#ifndef CB
#define CB 0
#endif
#ifndef L
#define L 4
#endif
#ifndef MN
#define MN 0
#endif
#ifndef TN      /* octets of the terminator */
#define TN 2
#endif
#ifndef CS      /* size of the alphabet */
#define CS 5
#endif
static char V[L + 1], D[L + 1];
static byte T[16], A[CS];
static int nbits(unsigned v) { int k = 0; while (v) { k++; v >>= 1; } return k; }
static void any_str(int n, int ascii) {     /* a string of n characters; the rest of the array is arbitrary */
    int i;
    for (i = 0; i < n; i++) { V[i] = (char)(vin8() & (ascii ? 0x7F : 0xFF)); ASSUME(V[i] != 0); }
    V[n] = 0;
    for (i = n + 1; i <= L; i++) V[i] = (char)vin8();
    for (i = 0; i <= L; i++) D[i] = (char)vin8();
}
static void same(int n) {
    int i;
    for (i = 0; i < n; i++) CHECK(D[i] == V[i], "content");
    CHECK(D[n] == 0, "zero terminated");
}
static void octets(int off, int n) { int i; for (i = 0; i < n; i++) CHECK(rval(B, P0 + off + 8 * i, 8) == (byte)V[i], "character written"); }
static void keep(void) { int i; for (i = 0; i < NB; i++) O[i] = B[i]; }
static void back(int k, flag r, int n) { CHECK(r, "decodes"); POS(k); SAME_OUTSIDE(0); same(n); }
#define DEC(k, call, n) do { keep(); setpos(&S, P0); flag r_ = (call); back(k, r_, n); } while (0)
#define LENBITS nbits(L - MN)
#define CASES(name) void name(void) { SPLIT(n, MN, L, name##1(n)); }
/* ---- ASCII ---- */
static void fix1(int n) { any_str(n, 0); end_stream(8 * L, CB);
    Acn_Enc_String_Ascii_FixSize(&S, L, V); POS(8 * L); SAME_OUTSIDE(8 * L); octets(0, L);
    DEC(8 * L, Acn_Dec_String_Ascii_FixSize(&S, L, D), L); REACH("full"); }
void fix(void) { SPLIT(n, L, L, fix1(n)); }
static void ext1(int n) { any_str(n, 0); end_stream(8 * n, CB);
    Acn_Enc_String_Ascii_External_Field_Determinant(&S, L, V); POS(8 * n); SAME_OUTSIDE(8 * n); octets(0, n);
    DEC(8 * n, Acn_Dec_String_Ascii_External_Field_Determinant(&S, L, n, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(ext)
static void inl1(int n) { any_str(n, 0); int k = LENBITS; end_stream(k + 8 * n, CB);
    Acn_Enc_String_Ascii_Internal_Field_Determinant(&S, L, MN, V); POS(k + 8 * n); SAME_OUTSIDE(k + 8 * n); octets(k, n);
    CHECK(rval(B, P0, k) == (uint64_t)(n - MN), "length");
    DEC(k + 8 * n, Acn_Dec_String_Ascii_Internal_Field_Determinant(&S, L, MN, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(inl)
static void nul1(int n) { int i; any_str(n, 0); byte t = vin8(); end_stream(8 * n + 8, CB);
    for (i = 0; i < n; i++) ASSUME((byte)V[i] != t);
    Acn_Enc_String_Ascii_Null_Terminated(&S, L, (char)t, V); POS(8 * n + 8); SAME_OUTSIDE(8 * n + 8); octets(0, n);
    CHECK(rval(B, P0 + 8 * n, 8) == t, "terminator");
    DEC(8 * n + 8, Acn_Dec_String_Ascii_Null_Terminated(&S, L, (char)t, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(nul)
/* first place where the terminator stands in the n+TN octets */
static int first(const byte *p, int n) { int i, j, e = -1; for (i = n; i >= 0; i--) { int m = 1; for (j = 0; j < TN; j++) if (p[i + j] != T[j]) m = 0; if (m) e = i; } return e; }
static void mul1(int n) { int i; byte X[L + TN]; any_str(n, 0);
    for (i = 0; i < TN; i++) T[i] = vin8();
    for (i = 0; i < n; i++) X[i] = (byte)V[i];
    for (i = 0; i < TN; i++) X[n + i] = T[i];
    ASSUME(first(X, n) == n);
    end_stream(8 * (n + TN), CB);
    Acn_Enc_String_Ascii_Null_Terminated_mult(&S, L, T, TN, V); POS(8 * (n + TN)); SAME_OUTSIDE(8 * (n + TN)); octets(0, n);
    for (i = 0; i < TN; i++) CHECK(rval(B, P0 + 8 * (n + i), 8) == T[i], "terminator");
    DEC(8 * (n + TN), Acn_Dec_String_Ascii_Null_Terminated_mult(&S, L, T, TN, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(mul)
/* ---- alphabets ---- */
static void alpha(int n) { int i, j;
    for (i = 0; i < CS; i++) { A[i] = vin8() & 0x7F; for (j = 0; j < i; j++) ASSUME(A[i] != A[j]); }
    for (i = 0; i < n; i++) { int in = 0; for (j = 0; j < CS; j++) if ((byte)V[i] == A[j]) in = 1; ASSUME(in); } }
static void indexes(int off, int n) { int i, k = nbits(CS - 1); for (i = 0; i < n; i++) { uint64_t x = rval(B, P0 + off + k * i, k); CHECK(x < CS && A[x] == (byte)V[i], "index written"); } }
static void cfix1(int n) { int k = nbits(CS - 1) * L; any_str(n, 1); alpha(n); end_stream(k, CB);
    Acn_Enc_String_CharIndex_FixSize(&S, L, A, CS, V); POS(k); SAME_OUTSIDE(k); indexes(0, L);
    DEC(k, Acn_Dec_String_CharIndex_FixSize(&S, L, A, CS, D), L); REACH("full"); }
void cfix(void) { SPLIT(n, L, L, cfix1(n)); }
static void cext1(int n) { int k = nbits(CS - 1) * n; any_str(n, 1); alpha(n); end_stream(k, CB);
    Acn_Enc_String_CharIndex_External_Field_Determinant(&S, L, A, CS, V); POS(k); SAME_OUTSIDE(k); indexes(0, n);
    DEC(k, Acn_Dec_String_CharIndex_External_Field_Determinant(&S, L, A, CS, n, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(cext)
static void cinl1(int n) { int k0 = LENBITS, k = k0 + nbits(CS - 1) * n; any_str(n, 1); alpha(n); end_stream(k, CB);
    Acn_Enc_String_CharIndex_Internal_Field_Determinant(&S, L, A, CS, MN, V); POS(k); SAME_OUTSIDE(k); indexes(k0, n);
    CHECK(rval(B, P0, k0) == (uint64_t)(n - MN), "length");
    DEC(k, Acn_Dec_String_CharIndex_Internal_Field_Determinant(&S, L, A, CS, MN, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(cinl)
static void seven(int off, int n) { int i; for (i = 0; i < n; i++) CHECK(rval(B, P0 + off + 7 * i, 7) == (byte)V[i], "character written"); }
static void iext1(int n) { any_str(n, 1); end_stream(7 * n, CB);
    Acn_Enc_IA5String_CharIndex_External_Field_Determinant(&S, L, V); POS(7 * n); SAME_OUTSIDE(7 * n); seven(0, n);
    DEC(7 * n, Acn_Dec_IA5String_CharIndex_External_Field_Determinant(&S, L, n, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(iext)
static void iinl1(int n) { int k = LENBITS; any_str(n, 1); end_stream(k + 7 * n, CB);
    Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant(&S, L, MN, V); POS(k + 7 * n); SAME_OUTSIDE(k + 7 * n); seven(k, n);
    CHECK(rval(B, P0, k) == (uint64_t)(n - MN), "length");
    DEC(k + 7 * n, Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(&S, L, MN, D), n); if (n == L) REACH("longest"); if (n == MN) REACH("shortest"); }
CASES(iinl)
/* ---- arbitrary input of LEFT bits: the destination has exactly L+1 characters ---- */
#ifdef LEFT
static void in(void) { int i; for (i = 0; i <= L; i++) D[i] = (char)vin8(); end_stream(LEFT, CB); }
static void out(flag r, int ok, int n, int k, int off, int w) { int i;
    CHECK(!!r == !!ok, "accepted exactly when well formed"); CHECK(spos(&S) <= NB * 8, "position beyond the input"); SAME_OUTSIDE(0);
    if (r) { POS(k); for (i = 0; i < L; i++) if (i < n) { uint64_t x = rval(O, P0 + off + w * i, w); CHECK((byte)D[i] == (byte)x, "content"); }
        for (i = 0; i <= L; i++) if (i >= n) CHECK(D[i] == 0, "zero terminated"); REACH("any accepted"); } else REACH("any refused"); }
static long room(void) { return NB * 8 - P0; }
void r_nul(void) { in(); byte t = vin8(); int i, e = -1; for (i = L; i >= 0; i--) if (8 * i + 8 <= room() && rval(O, P0 + 8 * i, 8) == t) e = i;
    flag r = Acn_Dec_String_Ascii_Null_Terminated(&S, L, (char)t, D); out(r, e >= 0, e, 8 * e + 8, 0, 8); }
void r_mul(void) { in(); int i, j, e = -1; for (i = 0; i < TN; i++) T[i] = vin8();
    for (i = L; i >= 0; i--) if (8 * (i + TN) <= room()) { int m = 1; for (j = 0; j < TN; j++) if (rval(O, P0 + 8 * (i + j), 8) != T[j]) m = 0; if (m) e = i; }
    flag r = Acn_Dec_String_Ascii_Null_Terminated_mult(&S, L, T, TN, D); out(r, e >= 0, e, 8 * (e + TN), 0, 8); }
void r_inl(void) { in(); int k = LENBITS, n = (int)rval(O, P0, k) + MN; flag r = Acn_Dec_String_Ascii_Internal_Field_Determinant(&S, L, MN, D);
    out(r, n <= L && k + 8 * n <= room(), n, k + 8 * n, k, 8); }
void r_iinl(void) { in(); int k = LENBITS, n = (int)rval(O, P0, k) + MN; flag r = Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(&S, L, MN, D);
    out(r, n <= L && k + 7 * n <= room(), n, k + 7 * n, k, 7); }
void r_ext(void) { in(); int n = (int)vin_range(0, L); flag r = Acn_Dec_String_Ascii_External_Field_Determinant(&S, L, n, D); out(r, 8 * n <= room(), n, 8 * n, 0, 8); }
void r_iext(void) { in(); int n = (int)vin_range(0, L); flag r = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(&S, L, n, D); out(r, 7 * n <= room(), n, 7 * n, 0, 7); }
/* a determinant beyond the maximum, or negative, never makes the decoder write beyond the destination */
void r_over(void) { in(); asn1SccSint n = (asn1SccSint)vin64(); byte w = vin8(); flag r; ASSUME(n < 0 || n > L); alpha(0);
    if (w == 0) r = Acn_Dec_String_Ascii_External_Field_Determinant(&S, L, n, D);
    else if (w == 1) r = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(&S, L, n, D);
    else r = Acn_Dec_String_CharIndex_External_Field_Determinant(&S, L, A, CS, n, D);
    if (r) CHECK(D[L] == 0, "zero terminated"); CHECK(spos(&S) <= NB * 8, "position beyond the input"); SAME_OUTSIDE(0);
    if (n < 0) REACH("negative"); if (n > L) REACH("too large"); }
void r_cinl(void) { in(); alpha(0); int i, k = LENBITS, w = nbits(CS - 1), n = (int)rval(O, P0, k) + MN, ok = n <= L && k + w * n <= room();
    for (i = 0; i < L; i++) if (i < n && ok && rval(O, P0 + k + w * i, w) >= CS) ok = 0;
    flag r = Acn_Dec_String_CharIndex_Internal_Field_Determinant(&S, L, A, CS, MN, D);
    CHECK(!!r == !!ok, "accepted exactly when well formed"); CHECK(spos(&S) <= NB * 8, "position beyond the input"); SAME_OUTSIDE(0);
    if (r) { POS(k + w * n); for (i = 0; i < L; i++) if (i < n) CHECK((byte)D[i] == A[rval(O, P0 + k + w * i, w)], "content"); CHECK(D[n] == 0, "zero terminated"); REACH("any accepted"); } else REACH("any refused"); }
#endif
