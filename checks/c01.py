from vlib.core import H, Runner

NAMES = ("w_bit w_one w_zero w_nzero w_none w_byte w_byte0 w_partial w_bytearray w_bits w_octets w_int w_intneg "
         "r_bit r_byte r_partial r_bytearray r_bits r_octets r_int r_pattern b_misc").split()




def main():
    hs = []
    for n in NAMES:
        if n in ("w_int", "w_intneg", "r_int"):
            for cb in range(8):
                for w in (8, 4):
                    hs.append(H("%s_cb%d_w%d" % (n, cb, w), "harness/c01.c", func=n, unwind=10, maxunwind=66,
                                defs=["WORD_SIZE=%d" % w, "CB=%d" % cb], thorough=n == "w_intneg" and cb not in (0, 3, 7),
                                bounds="every %d-bit value, bit offset %d, any earlier buffer content" % (w * 8, cb)))
            continue
        hs.append(H(n, "harness/c01.c", unwind=10, maxunwind=66,
                    bounds="buffer 12 bytes, any content, any bit position; arrays up to 4 bytes / 32 bits, runs up to 40 bits"))
    return Runner("C01").run(hs)
