"""C02: encoders in buffers of exactly the octets they need."""
import re
from vlib.core import H, Runner, VERIF

SRC = open(VERIF + "/harness/c02.c").read()
NAMES = re.findall(r"^ENC\((\w+),", SRC, re.M) + ["Real%d" % k for k in range(8)] + re.findall(r"FX\((\w+), \d", SRC)
HEAVY = "BcdK BcdVar BcdNul SAK SAVar SANul UAK UAVar UANul".split()
SLOW = "PosK TwoK Len StrCFix StrCExt StrCInl StrIExt StrIInl Semi SemiPos Con NonNeg ConPos OctBig BitsBig BitsFix OctFrag Uncon Oid RelOid BitsCon OctCon PosVar TwoVar".split()
W4 = "NonNeg Uncon Semi SemiPos Con ConPos PosK TwoK PosVar TwoVar Len".split()


def main():
    hs = []
    for w in (8, 4):
        for cb in range(8):
            for n in NAMES:
                if w == 4 and "64" in n:
                    continue
                if n in SLOW:
                    continue
                q = (w, cb) in ((8, 3), (8, 0)) and not (n in HEAVY and cb)
                hs.append(H("%s_w%d_cb%d" % (n, w, cb), "harness/c02.c", func="e_" + n, unwind=22, maxunwind=90, thorough=not q, hloop=45,
                            defs=["WORD_SIZE=%d" % w, "W=%d" % w, "CB=%d" % cb], bounds="every argument the function is made for (strings up to 3 characters, octets up to 4, bits up to 20-29, decimal integers up to 9999), bit offset %d, buffer of exactly the octets needed" % cb))
    return Runner("C02").run(hs, assumptions=["REAL: eight given values.", "The buffer's last octet may have spare bits; offsets 0 and 3 in the quick check, all eight in the thorough one."])
