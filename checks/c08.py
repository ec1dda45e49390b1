from vlib.core import H, Runner

STUBS = """AppendByte0 AppendByte AppendByteArray EncodeOctetString_no_length AppendBit AppendBitOne AppendBitZero AppendPartialByte AppendBits EncodeConstraintWholeNumber
EncodeConstraintPosWholeNumber ReadByte ReadByteArray DecodeOctetString_no_length ReadBits ReadBit DecodeConstraintWholeNumber DecodeConstraintPosWholeNumber""".split()


def main():
    hs = []
    for cb in range(8):
        for lo, hi, top in ((0, 0, 1), (1, 1, 2), (3, 3, 4), (0, 1, 2), (0, 4, 7), (2, 5, 6), (1, 3, 4), (0, 300, 4), (4, 65535, 6)):
            d = ["CB=%d" % cb, "MIN=%d" % lo, "MAX=%d" % hi, "NLO=%d" % max(0, lo - 1), "NHI=%d" % top, "NB=13"]
            for f in ("eo", "dco"):
                hs.append(H("%s_cb%d_%d_%d" % (f, cb, lo, hi), "harness/c08.c", func=f, unwind=10, maxunwind=70, defs=d, thorough=cb not in (0, 3), bounds="octet strings of SIZE(%d..%d), %d..%d octets, any contents, bit offset %d" % (lo, hi, lo, top, cb)))
        for lo, hi, top in ((0, 0, 1), (1, 1, 2), (7, 7, 8), (8, 8, 9), (19, 19, 20), (0, 1, 2), (0, 12, 15), (5, 20, 20), (3, 65535, 11)):
            d = ["CB=%d" % cb, "MIN=%d" % lo, "MAX=%d" % hi, "NLO=%d" % max(0, lo - 1), "NHI=%d" % top, "NB=13"]
            for f in ("eb", "dcb"):
                hs.append(H("%s_cb%d_%d_%d" % (f, cb, lo, hi), "harness/c08.c", func=f, unwind=10, maxunwind=70, defs=d, thorough=cb not in (0, 5), bounds="bit strings of SIZE(%d..%d), %d..%d bits, any contents, bit offset %d" % (lo, hi, lo, top, cb)))
    for n in (0, 1, 9, 127, 128, 300):
        for fm in (0, 1, 2):
            for f in ("feo", "fdo", "feb", "fdb"):
                if fm and (f in ("feo", "feb") or n > 2):
                    continue
                hs.append(H("%s_n%d_m%d" % (f, n, fm), "harness/c08.c", func=f, unwind=n + 10, maxunwind=n + 330, defs=["N=%d" % n, "FMIN=%d" % fm, "NB=%d" % (n + 10)], extra=["--max-field-sensitivity-array-size", "512"], thorough=n == 300,
                            bounds="%d octets or bits with SIZE(%d..70000), any contents" % (n, fm)))
    quick = {("beo", 0x4000, 0), ("beo", 0x4001, 1), ("bdo", 0x4001, 0), ("bdo", 0x8000, 0), ("bdo", 0xC000, 0), ("bdo", 0x10000, 0), ("beo", 0x8000, 0), ("beo", 0xC000, 0), ("beo", 0x10000, 0)}
    for n in (0x3FFF, 0x4000, 0x4001, 0x7FFF, 0x8000, 0xBFFF, 0xC000, 0xFFFF, 0x10000, 0x10001, 0x14081, 0x18000):
        for f in ("beo", "bdo", "beb", "bdb", "bmx", "bmxb"):
            if "mx" in f and n <= 0x10000:
                continue
            for mk in (0, 1):
                hs.append(H("%s_%x_%d" % (f, n, mk), "harness/c08.c", func=f, unwind=n + 50 if f in ("beo", "bdo", "bmx") else n // 8 + 50, stubs=["BitStream_" + s for s in STUBS], hloop=n // 8 + 50 if f[1:] == "eb" else 70, trace=False,
                            extra=["--object-bits", "20"], flags=["--no-standard-checks"], defs=["BIG=%d" % n, "KS=%d" % n] + ([] if mk else ["NOMARKS"]), timeout=3000,
                            thorough=f[-1] == "b" and (mk == 0 or n in (0x3FFF, 0xBFFF, 0x10001)) or f[-1] != "b" and (f, n, mk) not in quick,
                            bounds="strings of %d octets or bits, the primitives that carry the contents abstracted" % n))
    return Runner("C08").run(hs)
