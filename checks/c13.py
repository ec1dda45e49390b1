from vlib.core import H, Runner


def main():
    hs = []
    for cb in range(8):
        for n in "enc tf one peek".split():
            hs.append(H("%s_cb%d" % (n, cb), "harness/c13.c", func=n, unwind=10, maxunwind=40, defs=["CB=%d" % cb, "NB=6"],
                        bounds="patterns of 1..20 bits, every pattern and stream content, bit offset %d" % cb))
    for cb in (0, 3, 6):
        for k in (1, 3, 8, 11, 16):
            for mx in (0, 1, 4, 9):
                hs.append(H("nt_cb%d_k%d_m%d" % (cb, k, mx), "harness/c13.c", func="nt", unwind=12, maxunwind=40, thorough=(cb, k, mx) in ((6, 1, 4),),
                            defs=["CB=%d" % cb, "NB=6", "MX=%d" % mx, "K=%d" % k, "LEFT=%d" % (k + mx)],
                            bounds="terminator of %d bits, at most %d bits of content, every input, bit offset %d" % (k, mx, cb)))
    for k, mx, left in ((8, 9, 12), (3, 9, 6), (11, 4, 8), (1, 4, 0)):
        hs.append(H("nt_short_k%d_m%d" % (k, mx), "harness/c13.c", func="nt", unwind=12, maxunwind=40,
                    defs=["CB=%d" % (0 if left == 0 else 8 - left % 8 if left % 8 else 0), "NB=6", "MX=%d" % mx, "K=%d" % k, "LEFT=%d" % left, "SHORT"],
                    bounds="as above, the input ends %d bits after the start" % left))
    return Runner("C13").run(hs, assumptions=["patterns are zero padded to a byte, as the compiler emits them", "the true and false pattern differ"])
