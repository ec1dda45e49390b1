import re
from vlib.core import H, Runner, VERIF

SRC = open(VERIF + "/harness/c10.c").read()
FIX = re.findall(r"\b[ED]FIX\((\w+),", SRC)[2:] if False else [n for n in re.findall(r"\b[ED]FIX\((\w+),", SRC) if n != "name"]
NCON = [n for n in re.findall(r"\bNCON\((\w+),", SRC) if n != "name"]


def harnesses():
    hs = []
    for w in (8, 4):
        for n in FIX:
            hs.append(H("%s_w%d" % (n, w), "harness/c10.c", func=n, unwind=10, maxunwind=20, defs=["WORD_SIZE=%d" % w], bounds="every value, all 8 bit offsets"))
        for n in ["d_pos", "d_twos", "d_len"] + NCON:
            if w == 4 and n.endswith("32"):
                continue
            for cb in (0, 5):
                hs.append(H("%s_w%d_cb%d" % (n, w, cb), "harness/c10.c", func=n, unwind=10, maxunwind=66, defs=["WORD_SIZE=%d" % w, "CB=%d" % cb, "KHI=%d" % (w * 8)],
                            thorough=cb == 0 and n in NCON, bounds="every size 1..%d, every value, bit offset %d" % (8 * w, cb)))
        for n in ("e_pos", "e_twos") if w == 8 else ():
            for cb in range(8):
                for lo, hi in ((1, 24), (25, 40), (41, 48), (49, 56), (57, 64)):
                    for neg in (0, 1) if n == "e_twos" else (2,):
                        hs.append(H("%s_w8_cb%d_k%d_n%d" % (n, cb, hi, neg), "harness/c10.c", func=n, unwind=10, maxunwind=66, timeout=400,
                                    defs=["WORD_SIZE=8", "CB=%d" % cb, "KLO=%d" % lo, "KHI=%d" % hi, "NEG=%d" % neg],
                                    thorough=cb != 3 or neg == 0 and 24 < hi < 64, bounds="every size %d..%d, every value (sign %d), bit offset %d" % (lo, hi, neg, cb)))
        for n in ("e_pos", "e_twos", "e_len") if w == 4 else ("e_len",):
            for cb in range(8):
                hs.append(H("%s_w%d_cb%d" % (n, w, cb), "harness/c10.c", func=n, unwind=10, maxunwind=66, timeout=400, defs=["WORD_SIZE=%d" % w, "CB=%d" % cb],
                            thorough=cb not in ((3,) if w == 8 else (0, 3, 6)), bounds="every size 1..%d, every value, bit offset %d" % (8 * w, cb)))
    return hs


def main():
    return Runner("C10").run(harnesses())
