import re
from vlib.core import H, Runner, VERIF

SRC = open(VERIF + "/harness/c11.c").read()
ENC = "e_bcd e_bcdlen e_bcdnul e_ua e_sa e_ualen e_salen e_uanul e_sanul".split()
DEC = "d_bcd d_bcdlen d_bcdnul d_ua d_sa d_ualen d_salen d_uanul d_sanul".split()
VAR = [n for n in re.findall(r"\bDV\((\w+),", SRC) if n != "name"]


def mk(n, w, N, cb, thorough=False, timeout=200, tn=2, pfx="", okr=1, extra=(), tag="", **kw):
    nb = N + 4 if "bcd" in n else N + 8
    return H("%s_w%d_n%d_cb%d_t%d%s" % (n, w, N, cb, tn, ("_p%d" % len(pfx) if pfx else "") + tag), "harness/c11.c", func=n, unwind=26, maxunwind=104, timeout=timeout, thorough=thorough,
             defs=["WORD_SIZE=%d" % w, "N=%d" % N, "CB=%d" % cb, "NB=%d" % nb, "TN=%d" % tn, 'PFX="%s"' % pfx, "OKR=%d" % okr] + list(extra),
             bounds="%d digits (leading digits fixed: '%s', others arbitrary), bit offset %d, terminator of %d bytes" % (N, pfx, cb, tn), **kw)


def harnesses():
    hs = []
    for n in ENC:
        hs.append(mk(n, 4, 5, 3))
        hs.append(mk(n, 4, 6, 6, thorough=True, timeout=400))
        hs.append(mk(n, 8, 4, 0, timeout=400))
        sg = int("sa" in n)
        for w, N, hi in ((8, 19 if sg else 20, "0xFFFFFFFFFFFFFFULL"), (4, 10, "0xFFFFFF")):
            if sg:
                hs.append(mk(n, w, N, 5, timeout=400, extra=["VHI=%s>>1" % hi], tag="_max"))
                hs.append(mk(n, w, N, 5, timeout=400, extra=["VHI=~(%s>>1)" % hi], tag="_min"))
            else:
                hs.append(mk(n, w, N, 5, timeout=400, extra=["VHI=%s" % hi], tag="_max"))
    lim = {0: {4: "4294967295", 8: "18446744073709551615", 2: "65535", 1: "255"}, 1: {4: "2147483648", 8: "9223372036854775808", 2: "32768", 1: "128"}}
    for n in DEC:
        sg = int(n.startswith("d_s"))
        for w in (4, 8):
            L = lim[sg][w]
            free = 4
            hs.append(mk(n, w, len(L), 5, pfx=L[:-free]))
            hs.append(mk(n, w, len(L) + 1, 0, pfx=L[:len(L) - 3], thorough=w == 4, okr=int('nul' in n and not sg)))
            hs.append(mk(n, w, len(L) + 1, 5, pfx="0" + L[:-free], thorough=w == 4))
            hs.append(mk(n, w, 5, 6, okr=int(not n.endswith('anul'))))
        for tn in (1, 3) if n.endswith("anul") else ():
            hs.append(mk(n, 8, 5, 0, tn=tn))
        for d in (1, 2, 4):
            L = lim[sg][d]
            hs.append(mk(n + str(8 * d), 8, len(L) + ("nul" in n), 1, pfx=L[:-4] if len(L) > 5 else ""))
            hs.append(mk(n + str(8 * d), 8, len(L) + 1, 3, pfx=L[:-3] if len(L) > 5 else L[:1], thorough=True))
    return hs + var()


def var():
    hs = []
    for w in (4, 8):
        for n in VAR:
            if not (w == 4 and n.endswith("32")):
                hs.append(H("%s_w%d" % (n, w), "harness/c11.c", func=n, unwind=10, maxunwind=40, defs=["WORD_SIZE=%d" % w, "CB=3", "NB=14"], bounds="every bit pattern, bit offset 3"))
        for cb in range(8):
            for n in ("e_uvar", "e_svar"):
                hs.append(H("%s_w%d_cb%d" % (n, w, cb), "harness/c11.c", func=n, unwind=10, maxunwind=40, timeout=400, defs=["WORD_SIZE=%d" % w, "CB=%d" % cb, "NB=14"],
                            thorough=cb not in ((3,) if w == 8 else (0, 3)), bounds="every value, bit offset %d" % cb))
    return hs


def main():
    return Runner("C11").run(harnesses())
