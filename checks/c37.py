"""C37: the generated equality is equality of abstract values."""
from vlib import gu

REAL = r'''
#include "vh.h"
#include "u.h"
static inline double dbl(void) { uint64_t q = vin64(); double d; memcpy(&d, &q, 8); return d; }
void h(void) {
    TR1 v = dbl(), w = dbl(); flag ret;
    ASSUME(v == v && w == w);
    ret = TR1_Equal(&v, &w);
#ifdef EXACT
    CHECK((ret != 0) == (v == w), "the equality function differs from equality of the values");
#else
    if (v == w) { CHECK(ret, "equal values are told apart"); }
    if ((v < 0 && w >= 0) || (v == 0 && w != 0) || (v >= 0 && w < 0)) { CHECK(!ret, "values of different sign are equal"); REACH("different sign"); }
    /* exponents that differ by two or more: at least a factor of two between them */
    { uint64_t a, b; memcpy(&a, &v, 8); memcpy(&b, &w, 8); a = (a >> 52) & 0x7FF; b = (b >> 52) & 0x7FF;
      if (a >= 1 && a < 0x7FF && b >= a + 2) { CHECK(!ret, "values a factor of two apart are equal"); REACH("far apart"); } }
#endif
    REACH("compared");
}
'''


def more(g, out):
    g.add(out, "u.c", "TR1", REAL)
    g.add(out, "u.c", "real_tolerance", "#define EXACT\n" + REAL, finding=True)


def main():
    return gu.main("C37", "equal", ["Pairs of arbitrary valid values. The presence of a component with a DEFAULT is part of its value, as it is in the C type."], more=more)
