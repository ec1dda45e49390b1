from vlib.core import H, Runner


def main():
    hs = []
    for fp in (8, 4):
        for cb in range(8):
            for n in "e32be e32le e64be e64le d32be d32le d64be d64le".split():
                hs.append(H("%s_fp%d_cb%d" % (n, fp, cb), "harness/c12.c", func=n, unwind=10, maxunwind=70, thorough=fp == 4 and cb not in (0, 5),
                            defs=["FP_WORD_SIZE=%d" % fp, "CB=%d" % cb, "NB=10"], bounds="every bit pattern, bit offset %d, asn1Real of %d bytes" % (cb, fp)))
    return Runner("C12").run(hs, assumptions=["NaN payloads are not compared (conversion between float and double may change them)"])
