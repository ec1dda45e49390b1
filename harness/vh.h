/* Harness support: the same harness is decided by CBMC and replayed, with concrete
 * inputs taken from the solver's trace, as an ordinary program. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#ifdef VH_CBMC
uint8_t  nondet_vh8(void);
uint16_t nondet_vh16(void);
uint32_t nondet_vh32(void);
uint64_t nondet_vh64(void);
static uint8_t  vin8(void)  { uint8_t  vh_in = nondet_vh8();  return vh_in; }
static uint16_t vin16(void) { uint16_t vh_in = nondet_vh16(); return vh_in; }
static uint32_t vin32(void) { uint32_t vh_in = nondet_vh32(); return vh_in; }
static uint64_t vin64(void) { uint64_t vh_in = nondet_vh64(); return vh_in; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, "CHECK:" msg)
#define STOP() __CPROVER_assume(0)
#define REACH(msg) __CPROVER_assert(0, "REACH:" msg)
#else
#include <stdio.h>
static FILE *vh_f;
static uint64_t vh_next(int bits) {
    unsigned long long v = 0;
    if (!vh_f) { const char *p = getenv("VH_INPUT"); vh_f = p ? fopen(p, "r") : NULL; }
    if (vh_f && fscanf(vh_f, "%llx", &v) != 1) v = 0;
    return bits == 64 ? v : v & ((1ULL << bits) - 1);
}
static uint8_t  vin8(void)  { return (uint8_t)vh_next(8); }
static uint16_t vin16(void) { return (uint16_t)vh_next(16); }
static uint32_t vin32(void) { return (uint32_t)vh_next(32); }
static uint64_t vin64(void) { return vh_next(64); }
#define ASSUME(c) do { if (!(c)) { printf("REPLAY-ASSUME-FAILED %s:%d %s\n", __FILE__, __LINE__, #c); exit(77); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { printf("REPLAY-VIOLATION %s (%s:%d)\n", msg, __FILE__, __LINE__); fflush(stdout); exit(1); } } while (0)
#define STOP() do { printf("REPLAY-END\n"); exit(0); } while (0)
#define REACH(msg) do { printf("REACHED %s\n", msg); fflush(stdout); } while (0)
#ifndef VH_NO_MAIN
#define VH_XSTR(x) #x
void VH_ENTRY(void);
int main(void) { VH_ENTRY(); printf("REPLAY-END\n"); return 0; }
#endif
#endif
/* value in [lo,hi] */
static uint32_t vin_range(uint32_t lo, uint32_t hi) { uint32_t v = vin32(); ASSUME(v >= lo && v <= hi); return v; }
/* case split on a small number, each case on its own path, so that loops over it are resolved
 * during symbolic execution */
#define SPLIT(var, lo, hi, stmt) do { uint32_t var##_s = vin32(); int var; \
    for (var = (lo); var <= (hi); var++) if (var##_s == (uint32_t)var) { stmt; STOP(); } } while (0)
#endif
