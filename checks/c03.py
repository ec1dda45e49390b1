import re
from vlib.core import H, Runner, VERIF

SRC = open(VERIF + "/harness/c03.c").read()
NAMES = [n for n in re.findall(r"^(?:DEC|D0|DK)\((\w+),", SRC, re.M)]
for m in re.findall(r"^(?:DL|DN|DC)\((\w+),", SRC, re.M):
    NAMES += [m, m + "8", m + "16", m + "32"]

# decoders whose code depends on the word size, in the quick check
W4 = "NonNeg Uncon Semi SemiPos Con ConPos PosK TwoK Len PosVar TwoVar BcdVar BcdNul UAVar SAVar SANul BcdK SAK UAK".split()


def harnesses(kind):
    hs = []
    for w in (8, 4):
        for cb in range(8):
            d = ["WORD_SIZE=%d" % w, "CB=%d" % cb, "BMAX=%d" % (w + 2)]
            for n in NAMES:
                if w == 4 and n.endswith("32") and n not in ("Con32", "ConU32") or n.startswith("Pos") and 0:
                    continue
                if kind == "t" and n == "PeekBit":
                    continue
                q = cb == 3 if w == 8 else cb == 6 and n in W4
                hs.append(H("%s_%s_w%d_cb%d" % (kind, n, w, cb), "harness/c03.c", func="%s_%s" % (kind, n), unwind=12, maxunwind=140, defs=d,
                            thorough=not q, bounds="input of every length up to what the decoder needs, any content, bit offset %d" % cb))
            for lo in range(0, 54, 9):
                hs.append(H("%s_Fix%d_w%d_cb%d" % (kind, lo, w, cb), "harness/c03.c", func="%s_Fix" % kind, unwind=12, maxunwind=140, defs=d + ["SLO=%d" % lo, "SHI=%d" % (lo + 8)],
                            thorough=(w, cb) != (8, 3), bounds="nine fixed-size decoders, input of every length up to 9 bytes, any content, bit offset %d" % cb))
    return hs


def main():
    return Runner("C03").run(harnesses("s"))
