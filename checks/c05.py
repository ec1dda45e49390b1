from vlib.core import H, Runner, TIER

ENC = "e_con e_conpos e_semi e_semipos e_uncon".split()
DEC = "d_con d_conpos d_semi d_semipos d_uncon".split()


SPLITS = [(0, 24), (25, 40), (41, 56), (57, 64)]


def harnesses(names, offs8, offs4):
    hs = []
    for n in names:
        for w, offs in ((8, offs8), (4, offs4)):
            parts = SPLITS if w == 8 and n in ENC else [(0, 64)]
            for cb in range(8):
                for lo, hi in parts:
                    for sg in (0, 1) if n == "e_uncon" and w == 8 else (2,):
                        d = ["WORD_SIZE=%d" % w, "CB=%d" % cb, "NB=14", "KLO=%d" % lo, "KHI=%d" % hi, "SG=%d" % sg]
                        tag = ("_k%d_%d" % (lo, hi) if len(parts) > 1 else "") + ("" if sg == 2 else "_s%d" % sg)
                        hs.append(H("%s_w%d_cb%d%s" % (n, w, cb, tag), "harness/c05.c", func=n, unwind=10, maxunwind=66, defs=d, thorough=cb not in offs,
                                    bounds="every value and every bound of the %d-bit word, encodings of %d..%d bits, bit offset %d, any buffer content" % (w * 8, lo, hi, cb)))
    return hs


def main():
    return Runner("C05").run(harnesses(ENC, (3,), (0, 1, 5, 7)) + harnesses(DEC, range(8), range(8)))
