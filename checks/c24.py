"""C24: the ISO checksum is the one its definition gives."""
from vlib.core import H, Runner

W = "PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/"


def main():
    from vlib.core import REPO
    hs = []
    def h(f, lo, hi, given=0, thorough=False, sym=-1):
        hs.append(H("%s_%d%s" % (f, hi, "s" if sym >= 0 else ""), "harness/c24.c", func=f, units=[W + "IsoChecksum.c"], inc=[REPO + "/" + W], unwind=hi + 4, maxunwind=200, hloop=hi + 8, defs=["LO=%d" % lo, "HI=%d" % hi, "GIVEN=%d" % given, "SYM=%d" % sym], thorough=thorough,
                    bounds="every message of %d..%d octets" % (lo, hi) + (", the first %d of them%s given" % (given, ", but one," if sym >= 0 else "") if given else "")))
    h("def", 0, 5)
    h("ver", 0, 5)
    h("err", 1, 3)
    h("def", 19, 22, 20)        # the sums are reduced after every 20 octets
    h("def", 40, 42, 40)
    h("def", 21, 21, 20, sym=3)
    h("def", 0, 8, 0, True)
    h("ver", 0, 8, 0, True)
    return Runner("C24").run(hs)
