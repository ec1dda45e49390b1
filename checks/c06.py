from vlib.core import H, Runner
from checks.c05 import harnesses, DEC


def main():
    hs = harnesses(DEC, (2,), (4,))
    for n in "d_i8 d_i16 d_i32 d_u8 d_u16 d_u32".split():
        for w in (4, 8):
            hs.append(H("%s_w%d" % (n, w), "harness/c05.c", func=n, unwind=10, maxunwind=66, defs=["WORD_SIZE=%d" % w, "CB=6", "NB=14"],
                        bounds="every bound of the destination type, every bit pattern, bit offset 6"))
    from checks import c10
    hs += [h for h in c10.harnesses() if h.name.startswith("n_")]
    return Runner("C06").run(hs)
