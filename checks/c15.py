from vlib.core import H, Runner


def main():
    hs = [H("mil_w%d" % w, "harness/c15.c", func="mil", defs=["WORD_SIZE=%d" % w], bounds="every argument of the domain") for w in (8, 4)]
    for al in (8, 16, 32):
        for n in "ed":
            hs.append(H("%s_%d" % (n, al), "harness/c15.c", func=n, unwind=12, defs=["AL=%d" % al, "NB=12"], bounds="every position of a 12 byte buffer of any content"))
    return Runner("C15").run(hs, assumptions=["the boundary lies inside the buffer"])
