"""The battery of ACN types."""
from vlib.aschema import *

M63 = (1 << 63) - 1
u8 = lambda e: (lambda s, lv: ["PUT((uint64_t)(%s), 8);" % e(s, lv)])


def wid_(n, e):
    return lambda s, lv: ["PUT((uint64_t)(%s), %d);" % (e(s, lv), n)]


def cnt(f):
    """number of items of the component f, from the shape"""
    return lambda self: (lambda s, lv: self)


E3 = Enum([("ka", 1), ("kb", 5), ("kc", 9)])
ED = Enum([("pa", 10), ("pb", 20), ("pc", 30)])


def encval(items, n, order=None):
    """encode-values with the given numbers"""
    def f(s, lv):
        e = "0"
        for v, x in items:
            e = "((int)%s == (%d) ? (%d) : %s)" % (lv, v, x, e)
        return ["PUT((uint64_t)(int64_t)(%s), %d);" % (e, n)]
    return f


def n_of(s):
    return s if isinstance(s, int) else len(s)


O3 = Octet(0, 3)
S3 = Str(0, 3)
L3 = SeqOf(0, 3, R(0, 15))


def seq(items, **k):
    return ASeq(items, **k)


LEAF = [
    ("AI1", A(R(0, 255), "encoding pos-int, size 8", pos(8))),
    ("AI2", A(R(0, 1000), "encoding pos-int, size 11", pos(11))),
    ("AI3", A(R(0, 65535), "encoding pos-int, size 16, endianness big", pos(16))),
    ("AI4", A(R(1, 65535), "encoding pos-int, size 16, endianness little", le(2))),
    ("AI5", A(R(0, 70000), "encoding pos-int, size 32, endianness little", le(4))),
    ("AI6", A(R(0, (1 << 64) - 1), "encoding pos-int, size 64, endianness little", le(8))),
    ("AI7", A(R(-100, 100), "encoding twos-complement, size 8", pos(8))),
    ("AI8", A(R(-2048, 2047), "encoding twos-complement, size 12", pos(12))),
    ("AI9", A(R(-30000, 30000), "encoding twos-complement, size 16, endianness big", pos(16))),
    ("AI10", A(R(-3, 70000), "encoding twos-complement, size 32, endianness little", le(4))),
    ("AI11", A(R(-(1 << 63), M63), "encoding twos-complement, size 64, endianness big", pos(64))),
    ("AI12", A(R(0, 999), "encoding BCD, size 16", bcd(4))),
    ("AI13", A(R(-99, 99), "encoding ASCII, size 24", ascii_s(3))),
    ("AI14", A(R(0, 999), "encoding ASCII, size 32", ascii_u(4))),
    ("AI15", A(R(0, 999), "encoding BCD, size null-terminated", lambda s, lv: digits(s, 4, 0, lv) + ["PUT(15, 4);"], shapes=[0, 1, 2, 3], hint=dhint(lambda lv: lv), mx=16)),
    ("AI16", A(R(-99, 99), "encoding ASCII, size null-terminated, termination-pattern '00'H", lambda s, lv: ["PUT(%s >= 0 ? '+' : '-', 8);" % lv] + digits(s, 8, 48, absv(lv)) + ["PUT(0, 8);"], shapes=[0, 1, 2], hint=dhint(absv), mx=40)),
    ("AI17", A(R(10, 70000), "encoding pos-int, size 32, endianness big", pos(32))),
    ("AI18", A(R(5, 100), "")),
    ("AI19", A(R(-5, 5), "encoding twos-complement, size 64, endianness little", le(8))),
    ("AI20", A(R(0, 5), "encoding pos-int, size 64", pos(64))),
    ("AI21", A(R(-200000, 5), "encoding twos-complement, size 19", pos(19))),
    ("AI22", A(R(0, 300), "encoding pos-int, size 33", pos(33))),
    ("AB1", A(Bool(), "true-value '101'B", lambda s, lv: ["PUT(%s ? 5 : 2, 3);" % lv])),
    ("AB2", A(Bool(), "false-value '0011'B", lambda s, lv: ["PUT(%s ? 12 : 3, 4);" % lv])),
    ("AB3", A(Bool(), "true-value '0000000101'B, false-value '1110000010'B", lambda s, lv: ["PUT(%s ? 5 : 0x382, 10);" % lv])),
    ("AN1", A(Null(), "pattern '1011'B", lambda s, lv: ["PUT(11, 4);"])),
    ("AN2", A(Null(), "pattern 'A55A01'H", lambda s, lv: ["PUT(0xA55A01, 24);"])),
    ("AE1", A(Enum([("ea", 5), ("eb", 1), ("ec", 3), ("ed", 100)]), "encode-values, encoding pos-int, size 8", encval([(5, 5), (1, 1), (3, 3), (100, 100)], 8))),
    ("AE2", A(Enum([("ia", 5), ("ib", 1), ("ic", 3)]), "encode-values, encoding pos-int, size 16, endianness little", lambda s, lv: ["PUT(%s, 8);" % encval([(5, 700), (1, 2), (3, 60)], 8)(s, lv)[0][len("PUT((uint64_t)(int64_t)("):-len("), 8);")], "PUT((%s) >> 8, 8);" % encval([(5, 700), (1, 2), (3, 60)], 8)(s, lv)[0][len("PUT((uint64_t)(int64_t)("):-len("), 8);")]], body="{ ia[700], ib[2], ic[60] }")),
    ("AE3", A(Enum([("ja", 5), ("jb", 1), ("jc", 3)]), "")),
    ("AE6", A(Enum([("oa", 1), ("ob", 3), ("oc", 5), ("od", 9), ("oe", 70)]), "")),
    ("AE4", A(E3, "encoding pos-int, size 4", encval([(1, 0), (5, 1), (9, 2)], 4))),
    ("AE5", A(Enum([("la", -5), ("lb", 1), ("lc", -300)]), "encode-values, encoding twos-complement, size 10", encval([(-5, -5), (1, 1), (-300, -300)], 10))),
    ("AS1", AStr(S3, "encoding ASCII, size null-terminated, termination-pattern '00'H", "term", "'00'H")),
    ("AS2", AStr(Str(0, 2, alpha='"A".."D"', chars="ABCD"), "encoding ASCII, size null-terminated, termination-pattern '0102'H", "term", "'0102'H")),
    ("AS3", AStr(Str(3, 3), "encoding ASCII", "fix")),
    ("AS4", AStr(Str(0, 3, alpha='"A".."D"|"x"', chars="ABCDx"), "", "int", idx=True)),
    ("AS5", AStr(Str(1, 3), "encoding ASCII", "int")),
    ("AS6", AStr(Str(0, 2, alpha='"A".."D"', chars="ABCD"), "encoding ASCII, size null-terminated, termination-pattern '2C'H", "term", "'2C'H")),
    ("AO1", A(Octet(4, 4), "")), ("AO2", A(Octet(0, 3), "")), ("ABS1", A(Bits(12, 12), "")), ("ABS2", A(Bits(0, 5), "")),
    ("AR1", A(Real(vals=["0.0", "1.5", "-2.25", "1e300"]), "encoding IEEE754-1985-64, endianness big", None)),
    ("AR2", A(Real(vals=["0.0", "1.5", "-2.25"]), "encoding IEEE754-1985-32, endianness little", None)),
]


def real_bits(n, little):
    import struct
    def f(s, lv):
        b = struct.pack(("<" if little else ">") + ("f" if n == 4 else "d"), float(s))
        return ["PUT(%d, 8);" % c for c in b]
    return f


dict(LEAF)["AR1"].encf = real_bits(8, False)
dict(LEAF)["AR2"].encf = real_bits(4, True)


def cntf(t, name):
    return lambda s, lv: str(n_of(t().sub(s, name)))


# sequences with inserted fields
AQ1 = seq([Ins("len", "INTEGER [encoding pos-int, size 8]", u8(lambda s, lv: n_of(AQ1.sub(s, "data")))),
           ("data", ASized(O3, "size len"), "m"), ("tail", R(0, 3), "m")])
AQ2 = seq([Ins("hasA", "BOOLEAN []", wid_(1, lambda s, lv: int(AQ2.has(s, "fa")))), ("fx", R(0, 7), "m"),
           Ins("hasB", "BOOLEAN [true-value '11'B, false-value '00'B]", wid_(2, lambda s, lv: 3 * int(AQ2.has(s, "fb")))),
           ("fa", A(R(0, 255), "encoding pos-int, size 8", pos(8)), ("w", "hasA")), ("fb", O3, ("w", "hasB")), ("fc", Bool(), "o")])
AQ3 = seq([("va", A(R(0, 20), "encoding pos-int, size 8", pos(8)), "m"), ("vb", Bool(), ("w", "va >= 10"))], cond="($.exist.vb == ($.va >= 10))")
# two components present together
AQ4 = seq([Ins("both", "BOOLEAN []", wid_(1, lambda s, lv: int(AQ4.has(s, "wa")))), ("wa", R(0, 7), ("w", "both")), ("wb", Bool(), ("w", "both"))],
          keep=lambda s: (s[0] == "absent") == (s[1] == "absent"))
# choice by inserted enumerated
ACH1 = AChoice([("pa", R(0, 7)), ("pb", Bool()), ("pc", O3)], "ACH1_NONE", props="determinant sel")
ACH1.params = "<AED:sel>"
AED = A(ED, "encode-values, encoding pos-int, size 8", encval([(10, 10), (20, 20), (30, 30)], 8))
AQ5 = seq([Ins("kind", "AED []", u8(lambda s, lv: [10, 20, 30][AQ5.sub(s, "bod")[0]])), ("mid", R(0, 15), "m"), ("bod", ARef("ACH1", ACH1, "<kind>"), "m")])
# choice by integers
ACH2 = AChoice([("qa", R(0, 7)), ("qb", Bool()), ("qc", Null())], "ACH2_NONE", conds=["t1==1 t2==2", "t1==1 t2==3", "t1==4 t2==2"])
ACH2.params = "<INTEGER:t1, INTEGER:t2>"
AQ6 = seq([Ins("ta", "INTEGER [encoding pos-int, size 8]", u8(lambda s, lv: [1, 1, 4][AQ6.sub(s, "sel")[0]])),
           Ins("tb", "INTEGER [encoding pos-int, size 4]", wid_(4, lambda s, lv: [2, 3, 2][AQ6.sub(s, "sel")[0]])), ("sel", ARef("ACH2", ACH2, "<ta, tb>"), "m")])
# size determinants of all kinds
AQ7 = seq([Ins("n1", "INTEGER [encoding pos-int, size 16, endianness little]", lambda s, lv: ["PUT(%d, 16);" % (n_of(AQ7.sub(s, "list")) << 8)]),
           ("list", ASized(L3, "size n1"), "m"),
           Ins("n2", "INTEGER [encoding pos-int, size 4]", wid_(4, lambda s, lv: n_of(AQ7.sub(s, "str")))),
           ("str", AStr(S3, "encoding ASCII, size n2", "ext"), "m"),
           Ins("n3", "INTEGER [encoding pos-int, size 5]", wid_(5, lambda s, lv: n_of(AQ7.sub(s, "bs")))),
           ("bs", ASized(Bits(0, 9, use=[0, 1, 8, 9]), "size n3"), "m")])
# parameters through two levels
AL1 = ASized(SeqOf(1, 2, R(0, 255)), "size k")
AL1.params = "<INTEGER:k>"
AIN = seq([("ina", R(0, 3), "m"), ("inb", ARef("AL1", AL1, "<cnt>"), "m")])
AIN.params = "<INTEGER:cnt>"
AHD = seq([("hx", R(0, 3), "m")])
AQ8 = seq([("hd", A(AHD, "", lambda s, lv: ["PUT(%s.hx, 2);" % lv, "PUT(%d, 3);" % 0], body=""), "m")])
AQ8 = seq([("pre", Bool(), "m"), Ins("howmany", "INTEGER [encoding pos-int, size 3]", wid_(3, lambda s, lv: n_of(AIN.sub(AQ8.sub(s, "sub"), "inb")))), ("sub", ARef("AIN", AIN, "<howmany>"), "m")])
# alignment
AQ9 = seq([("za", R(0, 7), "m"), ("zb", A(R(0, 255), "encoding pos-int, size 8", pos(8)), "m", 8), ("zc", Bool(), "m"), ("zd", A(R(0, 65535), "encoding pos-int, size 16, endianness little", le(2)), "m", 16),
           ("ze", Bool(), "o"), ("zf", A(R(0, 255), "encoding pos-int, size 8", pos(8)), "m", 32)])
# the worst case of each alignment, and nothing else
AQ14 = seq([("ya", Bool(), "m"), ("yb", A(R(0, 255), "encoding pos-int, size 8", pos(8)), "m", 8)])
AQ15 = seq([("ua", Bool(), "m"), ("ub", A(R(0, 65535), "encoding pos-int, size 16, endianness big", pos(16)), "m", 16)])
AQ16 = seq([("oa", Bool(), "m"), ("ob", A(R(0, 70000), "encoding pos-int, size 32, endianness big", pos(32)), "m", 32)])
# fixed fields and patterns between
AQ10 = seq([Ins("magic", "NULL [pattern 'CAFE'H]", lambda s, lv: ["PUT(0xCAFE, 16);"]), ("xa", R(0, 3), "o"), Ins("pad", "NULL [pattern '000'B]", lambda s, lv: ["PUT(0, 3);"]), ("xb", A(Null(), "pattern '1'B", lambda s, lv: ["PUT(1, 1);"]), "m"),
            ("xc", A(R(0, 99), "encoding BCD, size 8", bcd(2)), ("d", "7", "7"))])
# one determinant for two arrays
AQ11 = seq([Ins("num", "INTEGER [encoding pos-int, size 8]", u8(lambda s, lv: n_of(AQ11.sub(s, "la")))), ("la", ASized(SeqOf(0, 2, R(0, 255)), "size num"), "m"), ("lb", ASized(Octet(0, 2), "size num"), "m")],
           keep=lambda s: len(s[0]) == s[1])
# presence decides over a determinant inside
AQ12 = seq([Ins("flag1", "BOOLEAN []", wid_(1, lambda s, lv: int(AQ12.has(s, "inner")))), ("inner", ARef("AQ1", AQ1), ("w", "flag1")), ("rest", Bool(), "m")])
# elements with inserted fields
AL2 = A(SeqOf(0, 2, ARef("AQ1", AQ1)), "")
# nested sequences, determinant inside the header
AQ13 = seq([("head", ASeq([("ha", R(0, 3), "m"), Ins("hlen", "INTEGER [encoding pos-int, size 8]", None)]), "m"), ("bod", ASized(O3, "size head.hlen"), "m")])
AQ13.items[0][1].items[1].enc = lambda s, lv: []


class HeadSeq(ASeq):
    def bits(self, s, lv):
        return ["PUT(%s.head.ha, 2);" % lv, "PUT(%d, 8);" % n_of(self.sub(s, "bod"))] + self.items[1][1].bits(self.sub(s, "bod"), lv + ".bod")


AQ13.__class__ = HeadSeq
# choice with its own index and ACN inside
ACH3 = A(Choice([("ma", R(0, 7)), ("mb", Octet(0, 2)), ("mc", Bool())], "ACH3_NONE"), "")
ACH4 = AChoice([("na", A(R(0, 100), "encoding pos-int, size 16, endianness little", le(2))), ("nb", A(Bool(), "true-value '11'B, false-value '01'B", lambda s, lv: ["PUT(%s ? 3 : 1, 2);" % lv]))], "ACH4_NONE")
_c4 = ACH4.bits
ACH4.bits = lambda s, lv: ["PUT(%d, 1);" % s[0]] + _c4(s, lv)
AL3 = ASized(SeqOf(0, 2, A(R(0, 200), "encoding pos-int, size 8", pos(8))), "size null-terminated, termination-pattern 'FF'H")
_l3 = AL3.bits
AL3.bits = lambda s, lv: _l3(s, lv) + ["PUT(255, 8);"]

COMP = [("AED", AED), ("ACH1", ACH1), ("ACH2", ACH2), ("AL1", AL1), ("AIN", AIN),
        ("AQ1", AQ1), ("AQ2", AQ2), ("AQ3", AQ3), ("AQ4", AQ4), ("AQ5", AQ5), ("AQ6", AQ6), ("AQ7", AQ7), ("AQ8", AQ8), ("AQ9", AQ9), ("AQ10", AQ10), ("AQ11", AQ11), ("AQ12", AQ12),
        ("AL2", AL2), ("AQ13", AQ13), ("AQ14", AQ14), ("AQ15", AQ15), ("AQ16", AQ16), ("ACH3", ACH3), ("ACH4", ACH4), ("AL3", AL3)]
ALL = LEAF + COMP
# types with parameters have no encoder of their own
PARAM = {"ACH1", "ACH2", "AL1", "AIN"}
ACN = [(n, t) for n, t in ALL if n not in PARAM]
