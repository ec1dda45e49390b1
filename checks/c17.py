from vlib.core import H, Runner


def main():
    hs = []
    for w in (8, 4):
        for n in "oid bin lin".split():
            hs.append(H("%s_w%d" % (n, w), "harness/c17.c", func=n, unwind=26 if n == "oid" else 8 if n == "lin" else 4, maxunwind=60, defs=["WORD_SIZE=%d" % w, "L=%d" % (7 if w == 8 else 5)], bounds="every pair of object identifiers of 0..20 components; every table of up to 7 entries and every value"))
    for n in "bits octets exact chr".split():
        hs.append(H(n, "harness/c17.c", unwind=12, maxunwind=60, bounds="every pair of strings of 0..6 octets; every alphabet of up to 6 characters"))
        hs.append(H(n + "_l", "harness/c17.c", func=n, unwind=22, maxunwind=60, defs=["L=17"], hloop=180, thorough=n == "bits", bounds="every pair of strings of 0..17 octets; every alphabet of up to 17 characters"))
    return Runner("C17").run(hs)
