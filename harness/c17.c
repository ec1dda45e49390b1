/* comparison and lookup functions */
#include "rtl.h"
#ifndef L
#define L 6
#endif
static byte X[L + 1], Y[L + 1];
static void two(void) { int i; for (i = 0; i <= L; i++) { X[i] = vin8(); Y[i] = vin8(); } }
static int bits_eq(int n) { int i; for (i = 0; i < 8 * L + 8; i++) if (i < n && rbit(X, i) != rbit(Y, i)) return 0; return 1; }
void bits(void) { two(); int n = (int)vin_range(0, 8 * L), m = (int)vin_range(0, 8 * L);
    flag r = BitString_equal(n, m, X, Y); CHECK(!!r == (n == m && bits_eq(n)), "equal exactly when length and used bits are equal");
    if (r && n % 8 == 3 && X[n / 8] != Y[n / 8]) REACH("differ beyond the used bits"); if (!r && n == m) REACH("differ"); if (r && n == 0) REACH("empty"); if (!r && n != m && bits_eq(n < m ? n : m)) REACH("prefix"); }
void octets(void) { two(); int n = (int)vin_range(0, L), m = (int)vin_range(0, L);
    flag r = OctetString_equal(n, m, X, Y); CHECK(!!r == (n == m && bits_eq(8 * n)), "equal exactly when length and content are equal");
    if (r && n == L) REACH("same"); if (!r && n == m) REACH("differ"); if (r && n == 0) REACH("empty"); if (!r && n != m && bits_eq(8 * (n < m ? n : m))) REACH("prefix"); }
/* exactly n octets of memory */
static void exact1(int n) { int i; byte *p = malloc((size_t)n + (n == 0)), *q = malloc((size_t)n + (n == 0)); int e = 1; for (i = 0; i < n; i++) { p[i] = vin8(); q[i] = vin8(); if (p[i] != q[i]) e = 0; }
    CHECK(!!OctetString_equal(n, n, p, q) == e, "equal"); 
    if (n) { int k = 8 * n - (int)vin_range(0, 7); e = 1; for (i = 0; i < 8 * n; i++) if (i < k && rbit(p, i) != rbit(q, i)) e = 0; CHECK(!!BitString_equal(k, k, p, q) == e, "equal"); if (k % 8) REACH("partial"); }
    free(p); free(q); if (n == L) REACH("longest"); }
void exact(void) { SPLIT(n, 0, L, exact1(n)); }
static Asn1ObjectIdentifier P, Q;
void oid(void) { int i, e = 1; P.nCount = (int)vin_range(0, OBJECT_IDENTIFIER_MAX_LENGTH); Q.nCount = (int)vin_range(0, OBJECT_IDENTIFIER_MAX_LENGTH);
    for (i = 0; i < OBJECT_IDENTIFIER_MAX_LENGTH; i++) { P.values[i] = (asn1SccUint)vin64(); Q.values[i] = (asn1SccUint)vin64(); if (i < P.nCount && P.values[i] != Q.values[i]) e = 0; }
    flag r = ObjectIdentifier_equal(&P, &Q); CHECK(!!r == (P.nCount == Q.nCount && e), "equal exactly when count and components are equal");
    CHECK(!ObjectIdentifier_equal(NULL, &Q) && !ObjectIdentifier_equal(&P, NULL), "nothing is equal to no value");
    if (r && P.nCount == OBJECT_IDENTIFIER_MAX_LENGTH) REACH("longest"); if (r && P.nCount == 1 && P.values[1] != Q.values[1]) REACH("unused differ"); if (!r && P.nCount == Q.nCount) REACH("differ"); }
static asn1SccSint T[L];
static void bin1(int n) { int i, e = -1; asn1SccSint v = (asn1SccSint)vin64(); for (i = 0; i < L; i++) T[i] = (asn1SccSint)vin64();
    for (i = 0; i < n; i++) { if (i) ASSUME(T[i - 1] < T[i]); if (T[i] == v) e = i; }
    CHECK(binarySearch(T, n, v) == e, "index, or -1"); if (n == L && e == L - 1) REACH("last"); if (n == L && e < 0) REACH("absent"); }
void bin(void) { SPLIT(n, 0, L, bin1(n)); }
static void lin1(int n) { int i, e = -1; asn1SccSint v = (asn1SccSint)vin64(); for (i = 0; i < L; i++) T[i] = (asn1SccSint)vin64();
    for (i = n - 1; i >= 0; i--) if (T[i] == v) e = i;
    CHECK(linearSearch(T, n, v) == e, "first index, or -1"); if (n == L && e == L - 1) REACH("last"); if (n == L && e < 0) REACH("absent"); }
void lin(void) { SPLIT(n, 0, L, lin1(n)); }
static void chr1(int n) { int i, e = 0; byte c = vin8(); ASSUME(c < 128); for (i = 0; i < L; i++) X[i] = vin8();
    for (i = n - 1; i >= 0; i--) if (X[i] == c) e = i;
    CHECK(GetCharIndex((char)c, X, n) == e, "index in the alphabet"); if (n == L && e == L - 1) REACH("last"); }
void chr(void) { SPLIT(n, 1, L, chr1(n)); }
void reals(void) { union { double d; uint64_t u; } a, b; a.u = vin64(); b.u = vin64(); ASSUME(a.d == a.d && b.d == b.d);
    flag r = Asn1Real_Equal(a.d, b.d), s = Asn1Real_Equal(b.d, a.d); if (a.d == b.d) CHECK(r, "equal numbers are equal"); CHECK(!!r == !!s, "symmetric");
    if (a.d == 0 && b.d != 0) CHECK(!r, "zero is not equal to another number");
    if (a.d == 0 && r && a.u != b.u) REACH("zeros"); if (!r) REACH("differ"); }
