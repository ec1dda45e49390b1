"""C33: encodings never exceed the announced size, and fixed worst cases reach it."""
from vlib import gu, schema, battery, abattery


def announced(g, out, main, rows, pfx=""):
    """The announced size in bits is that of the longest encoding there is, computed independently."""
    text = '#include "vh.h"\n#include "%s.h"\nvoid h(void) {\n    uint32_t k = vin_range(0, %d);\n' % (main, len(rows) - 1)
    for i, (n, mx) in enumerate(rows):
        text += '    if (k == %d) CHECK(%s_REQUIRED_BITS_FOR_%sENCODING == %d && %s_REQUIRED_BYTES_FOR_%sENCODING == %d, "the announced size of %s is not that of its longest encoding");\n' % (i, n, pfx, mx, n, pfx, (mx + 7) // 8, n)
    text += '    REACH("sizes compared");\n}\n'
    g.add(out, main + ".c", "announced_" + main, text)


def more(g, out):
    announced(g, out, "u", [(n, m) for n, m in ((n, schema.maxbits(t)) for n, t in battery.UPER) if m is not None])
    ao = gu.acn(g, "size")
    # with alignment the announced size includes slack for any start
    announced(g, ao, "a", [(n, max(schema.nbits(t.bits(s, "v")) for s in t.shapes())) for n, t in abattery.ACN if n not in ("AQ9", "AI15", "AI16", "AL2")], "ACN_")


def main():
    return gu.main("C33", "size", ["Every encoder writes into a buffer of exactly the announced number of bytes."], more=more)
