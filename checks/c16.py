from vlib.core import H, Runner

FIX = "U8 U16_BE U32_BE U64_BE U16_LE U32_LE U64_LE I8 I16_BE I32_BE I64_BE BOOL1".split()


def main():
    hs = [H("dist", "harness/c16.c", bounds="every pair of positions up to 2^20 bytes")]
    for w in (8, 4):
        for cb in range(8):
            d = ["WORD_SIZE=%d" % w, "CB=%d" % cb, "NB=14"]
            for n in FIX:
                hs.append(H("%s_w%d_cb%d" % (n, w, cb), "harness/c16.c", func=n, unwind=10, maxunwind=80, defs=d, thorough=w == 4 and cb not in (3,),
                            bounds="reserve, write 8 or 16 other bits, fill in, fill in again: every value, any buffer content, bit offset %d" % cb))
            for n in ("ConstSize", "TwosComplement_ConstSize"):
                hs.append(H("%s_w%d_cb%d" % (n, w, cb), "harness/c16.c", func=n, unwind=68, maxunwind=140, defs=d, thorough=cb != 3,
                            bounds="the same, every size of 1..%d bits" % (w * 8)))
    for cb in range(8):
        for L in (1, 3, 5):
            hs.append(H("str_cb%d_l%d" % (cb, L), "harness/c16.c", func="str", unwind=60, maxunwind=300, thorough=cb not in (0, 5), defs=["CB=%d" % cb, "NB=14", "L=%d" % L],
                        bounds="strings of at most %d characters in a field of %d" % (L, L)))
    return Runner("C16").run(hs, assumptions=["the value fits the field", "determinant strings of up to 5 characters"])
