from vlib.core import H, Runner


def h(n, cb, L, extra=(), tag="", **kw):
    return H("%s_cb%d_l%d%s" % (n, cb, L, tag), "harness/c14.c", func=n, unwind=L + 8, maxunwind=140, uw={"GetCharIndex.0": 140},
             defs=["CB=%d" % cb, "L=%d" % L, "NB=%d" % (L + 8)] + list(extra), bounds="strings of up to %d characters, bit offset %d %s" % (L, cb, " ".join(extra)), **kw)


def main():
    hs = []
    for cb in range(8):
        q = cb in (0, 3)
        for n in "fix ext inl nul mul".split():
            hs.append(h(n, cb, 4, thorough=not q))
        for n in "cfix cext cinl iext iinl".split():
            hs.append(h(n, cb, 2, thorough=not (cb == 3 or q and "inl" not in n)))
            hs.append(h(n, cb, 4, thorough=True, timeout=1500))
        hs.append(h("inl", cb, 4, ["MN=2"], "_m2", thorough=cb != 3))
        for n in "cinl iinl".split():
            hs.append(h(n, cb, 2, ["MN=1"], "_m1", thorough=cb != 0))
            hs.append(h(n, cb, 4, ["MN=2"], "_m2", thorough=True, timeout=1500))
    for tn in (1, 3, 10):
        hs.append(h("mul", 2, 3, ["TN=%d" % tn, "NB=16"], "_t%d" % tn))
        hs.append(h("r_mul", 2, 3, ["TN=%d" % tn, "NB=16", "LEFT=%d" % (8 * tn + 16)], "_t%d" % tn))
    for cs in (1, 2, 8):
        for n in "cfix cext cinl".split():
            hs.append(h(n, 5, 2, ["CS=%d" % cs], "_c%d" % cs))
    for n in "ext nul".split():
        hs.append(h(n, 1, 9, tag="_long"))
    for cb in range(8):
        for n in "r_nul r_mul r_inl r_iinl r_ext r_iext r_over r_cinl".split():
            for left in (8, 22, 40):
                hs.append(h(n, cb, 3, ["LEFT=%d" % left, "MN=%d" % (0 if left != 22 else 1)], "_in%d" % left, thorough=cb not in (0, 5)))
    return Runner("C14").run(hs, assumptions=["terminators of 1..10 octets, the most the runtime supports", "characters are in the alphabet; a string does not contain its terminator"])
