from vlib.core import H, Runner


def main():
    hs = []
    for w in (8, 4):
        for fp in (8, 4):
            base = ["WORD_SIZE=%d" % w, "FP_WORD_SIZE=%d" % fp, "NB=15"]
            emax, bias, mb = (0x7FF, 1075, 52) if fp == 8 else (0xFF, 150, 23)
            cl = [("spec", emax, emax, None), ("zero", 0, 0, (0, 0))]
            for k in range(1, mb + 1, 8):
                cl.append(("sub%d" % k, 0, 0, (1 << (k - 1), (1 << min(k + 7, mb)) - 1)))
            cl += [("low", 1, bias - 129, None)] if fp == 8 else []
            cl += [("mid", max(1, bias - 128), min(emax - 1, bias + 127), None)]
            cl += [("high", bias + 128, emax - 1, None)] if bias + 128 < emax else []
            for cb in (0, 3, 6):
                for nm, lo, hi, fr in cl:
                    d = base + ["CB=%d" % cb, "EL=%d" % lo, "EH=%d" % hi] + (["FL=%d" % fr[0], "FH=%d" % fr[1]] if fr else [])
                    for f in ("enc",) if nm not in ("spec", "zero") else ("rt",):
                        hs.append(H("%s_w%d_f%d_cb%d_%s" % (f, w, fp, cb, nm), "harness/c07.c", func=f, unwind=14, maxunwind=60, uw={"mk.0": 60, "GetDoubleByMantissaAndExp.0": 34}, defs=d, thorough=cb != 3 or w == 8 and fp == 4 or (w, fp) != (8, 8) and nm not in ("mid", "spec"),
                                    bounds="every number with exponent field %d..%d%s, bit offset %d" % (lo, hi, " and fraction %d..%d" % fr if fr else "", cb)))
            xs = {1: (0, 1, 127, -1, -128, -50), 2: (0, -1, 971, 972, -1074, -1022, -1100, 323, 242, -300, 0x7FFF, -0x8000), 3: (5, -1074, 971, 0x7FFFFF, -0x800000)}
            if fp == 4:
                xs = {1: (0, 1, 104, 127, -1, -128, -126, -50), 2: (0, -1, 104, -149, -126, 0x7FFF, -0x8000), 3: (5, -149, 104, 0x7FFFFF, -0x800000)}
            short = {1: (0, -128), 2: (-1074, 0, 971), 3: (971,)} if fp == 8 else {1: (104, -128), 2: (-149, 0), 3: (104,)}
            for el in xs:
                for nb in (1, 7, 8, 9):
                    for b in (0, 1, 2):
                        for tier, x in (("q", xs[el] if nb == 1 and w == 8 else short[el]), ("t", xs[el])):
                            ln = 1 + el + nb
                            quick = tier == "q" and (w == fp and (nb == 1 or nb == 7 and b == 0 and fp == 8 or nb == 9 and b == 0 and el == 1) or w == 4 and fp == 8 and b == 0 and nb == 7 and el != 1)
                            if tier == "q" and not quick:
                                continue
                            hs.append(H("dec_w%d_f%d_b%d_e%d_m%d%s" % (w, fp, b, el, nb, tier), "harness/c07.c", func="dec", unwind=14, maxunwind=60, uw={"mk.0": 60, "GetDoubleByMantissaAndExp.0": 34},
                                        defs=base + ["LEN=%d" % ln, "ELEN=%d" % el, "BASE=%d" % b, "XS=%s" % ",".join(map(str, x))], thorough=not quick, timeout=900,
                                        bounds="every mantissa of %d octets, sign and scale factor, exponents %s, base %d" % (nb, x, (2, 8, 16)[b])))
            for cb in (0, 3):
                for ln in range(0, 5):
                    hs.append(H("spec_w%d_f%d_cb%d_l%d" % (w, fp, cb, ln), "harness/c07.c", func="spec", unwind=14, maxunwind=60, uw={"GetDoubleByMantissaAndExp.0": 34},
                                defs=base + ["CB=%d" % cb, "SLEN=%d" % ln], thorough=cb == 0 or w != fp, bounds="every unsupported or special content of %d octets" % ln))
            for sl in (5, 11):
                hs.append(H("trunc_w%d_f%d_l%d" % (w, fp, sl), "harness/c07.c", func="rtrunc", unwind=14, maxunwind=60, uw={"GetDoubleByMantissaAndExp.0": 34}, defs=base + ["SLEN=%d" % sl], thorough=w != fp or sl > 5, timeout=900, bounds="every input of up to %d bytes that ends before the length it announces" % sl))
    return Runner("C07").run(hs)
