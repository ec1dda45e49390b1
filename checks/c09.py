from vlib.core import H, Runner


def main():
    hs = []
    for rel in (0, 1):
        t = "rel" if rel else "oid"
        hs.append(H("%s_val" % t, "harness/c09.c", func="val", unwind=24, maxunwind=60, defs=["REL=%d" % rel], bounds="every count, every component"))
        for w in (8, 4):
            for cb in range(8):
                for k, vm, th in ((2 - rel, "UMAX", False), (3 - rel, "UMAX", True), (3, "0x3FFF", False)):
                    d = ["REL=%d" % rel, "WORD_SIZE=%d" % w, "CB=%d" % cb, "K=%d" % k, "VMAX=%s" % (vm if rel or k > 2 or w else vm), "NB=%d" % (3 + k * (10 if w == 8 else 5))]
                    hs.append(H("%s_rt_w%d_cb%d_k%d%s" % (t, w, cb, k, "" if vm == "UMAX" else "s"), "harness/c09.c", func="rt", unwind=12, maxunwind=60, defs=d, thorough=th or cb != 3 or (w == 8 and vm != "UMAX"), timeout=1500 if th else 500,
                                bounds="%d components up to %s" % (k, vm)))
            for n in (0, 1, 2, 3, 4, 6):
                hs.append(H("%s_rd_w%d_n%d" % (t, w, n), "harness/c09.c", func="rd", unwind=14, maxunwind=60, thorough=n > 3, defs=["REL=%d" % rel, "WORD_SIZE=%d" % w, "CB=%d" % (n % 8), "N=%d" % n, "NB=%d" % (n + 3)], bounds="every content of %d octets" % n))
        for n in (18, 19, 20, 21, 24):
            hs.append(H("%s_many_n%d" % (t, n), "harness/c09.c", func="many", unwind=30, maxunwind=60, defs=["REL=%d" % rel, "N=%d" % n, "NB=%d" % (n + 1)], bounds="%d one-octet components" % n))
        for n in (3, 4):
            hs.append(H("%s_len_n%d" % (t, n), "harness/c09.c", func="len", unwind=14, maxunwind=60, defs=["REL=%d" % rel, "N=%d" % n, "NB=%d" % (n + 1), "CB=3"], bounds="every input of %d octets" % n))
        for f in ("longf", "longd"):
            hs.append(H("%s_%s" % (t, f), "harness/c09.c", func=f, unwind=210, maxunwind=420, hloop=400, extra=["--max-field-sensitivity-array-size", "512"], defs=["REL=%d" % rel, "NB=220", "LONGF", "CB=%d" % (5 if f == "longf" else 0)], bounds="two values of 20 components of 64 significant bits"))
    hs.append(H("init", "harness/c09.c", unwind=24, maxunwind=60))
    return Runner("C09").run(hs)
