"""The battery of types on which the generated code is decided."""
from vlib.schema import *

TE1 = Enum([("ea", 5), ("eb", 1), ("ec", -3), ("ed", 100)])
TE4 = Enum([("fa", 0)])
TE5 = Enum([("g0", 0), ("g1", 1), ("g2", 2), ("g3", 3), ("g4", 4)])
TI2 = R(-5, 10)
TO2 = Octet(0, 3)
TS2 = Str(3, 3, alpha='"A".."D"|"x"', chars="ABCDx")
TQ1 = Seq([("qi", Ref("TI2", TI2), "m"), ("qb", Bool(), "o"), ("qe", Ref("TE1", TE1), ("d", "ec", "ec")), ("qo", Ref("TO2", TO2), "o")])
TL1 = SeqOf(0, 3, Ref("TI2", TI2))
TC1 = Choice([("ca", R(0, 7)), ("cb", Bool()), ("cc", Ref("TS2", TS2)), ("cd", Null()), ("ce", Ref("TL1", TL1))], "TC1_NONE")
TC4 = Choice([("ha", Bool()), ("hb", Octet(0, 2)), ("hc", R(1, 6))], "TC4_NONE")

UPER = [
    ("TI1", R(0, 255)), ("TI2", TI2), ("TI3", R(5, 5)), ("TI4", Int("(1..MAX)", lo=1, hi=None)), ("TI5", Int("", lo=None, hi=None)),
    ("TI6", Int("(1..3 | 7..9 | 20)", [(1, 3), (7, 9), (20, 20)], 1, 20)),
    ("TI7", R(0, (1 << 64) - 1)), ("TI8", R(-(1 << 63), (1 << 63) - 1)),
    ("TI9", Int("(0..100)(10..50 EXCEPT 20)", [(10, 19), (21, 50)], 10, 50)),
    ("TI10", Int("(MIN..0)", lo=None, hi=0)), ("TI11", Int("(-3..MAX)", lo=-3, hi=None)),
    ("TI12", R(-70000, 5000000000)), ("TI13", Int("(0..20 ^ 10..30)", lo=10, hi=20)), ("TI14", R(1, 257)),
    ("TB1", Bool()), ("TN1", Null()),
    ("TE1", TE1), ("TE2", Enum(TE1.items, ["ea", "ec"], "TE1 (ea | ec)")), ("TE4", TE4), ("TE5", TE5),
    ("TO1", Octet(4, 4)), ("TO2", TO2), ("TO3", Octet(2, 5)), ("TO4", Octet(1, 3, "SIZE(1|3)", [1, 3])), ("TO5", Octet(0, 130, use=[0, 1, 127, 130])),
    ("TBS1", Bits(12, 12)), ("TBS2", Bits(0, 11)), ("TBS3", Bits(8, 16, use=[8, 9, 15, 16])), ("TBS4", Bits(3, 3)),
    ("TS1", Str(0, 4)), ("TS2", TS2), ("TS3", Str(1, 4, "NumericString")), ("TS4", Str(2, 3, alpha='"0".."9"', chars="0123456789")),
    ("TS7", Str(0, 2, alpha='"a"', chars="a")),
    ("TQ1", TQ1), ("TQ2", Seq([("ra", Bool(), "o"), ("rb", R(0, 3), "o"), ("rc", Null(), "m"), ("rd", Octet(2, 2), "m"), ("re", Bits(5, 5), "m"), ("rf", Str(1, 2), "o")])),
    ("TQ3", Seq([("sa", Ref("TQ1", TQ1), "o"), ("sb", Ref("TC1", TC1), "m"), ("sc", Ref("TL1", TL1), "o"), ("sd", Seq([("se", R(0, 1), "o"), ("sf", R(-1, 1), "m")]), "m")])),
    ("TQ4", Seq([("ta", R(0, 100), ("d", "7", "7")), ("tb", Bool(), ("d", "TRUE", "TRUE")), ("tc", R(0, 100), "m")])),
    ("TQ5", Seq([("ua", Bool(), "m"), ("ub", R(0, 3), "m")], kw="SET")),
    ("TC1", TC1), ("TC2", Choice([("da", R(0, 7))], "TC2_NONE")), ("TC3", Choice([("ga", Ref("TQ1", TQ1)), ("gb", Ref("TC1", TC1)), ("gc", Bits(0, 3))], "TC3_NONE")),
    ("TL1", TL1), ("TL2", SeqOf(2, 2, Seq([("va", Bool(), "m"), ("vb", R(0, 3), "o")]))), ("TC4", TC4), ("TL3", SeqOf(1, 2, Ref("TC4", TC4), kw="SET")),
    ("TL4", SeqOf(0, 2, SeqOf(1, 2, R(0, 3)))), ("TL5", SeqOf(1, 2, Str(0, 2))), ("TL6", Ref("TL1 (SIZE(1..2))", SeqOf(1, 2, Ref("TI2", TI2)))),
    ("TW1", Refined("TQ1 (WITH COMPONENTS {..., qb PRESENT, qo ABSENT, qi (0..3)})", TQ1, "($.exist.qb && !$.exist.qo && $.qi >= 0 && $.qi <= 3)", lambda s: s[1] != "absent" and s[3] == "absent")),
    ("TW2", Refined("TC1 (WITH COMPONENTS {ca (2..5)})", TC1, "($.kind != ca_PRESENT || ($.u.ca >= 2 && $.u.ca <= 5))")),
    ("TR1", Real(vals=["0.0", "1.0", "-2.5", "0.1", "1e300", "-1e-300"], cond="1")),
    ("TR2", Real("(0.0..10.0)", ["0.0", "10.0", "0.5"], "$ >= 0.0 && $ <= 10.0")),
    # exclusive bounds, single values, exceptions, intersections
    ("TI15", Int("(5<..MAX)", lo=6, hi=None)), ("TI16", Int("(0..<10)", lo=0, hi=9)), ("TI17", Int("(-5<..<5)", lo=-4, hi=4)), ("TI18", Int("(MIN..<0)", lo=None, hi=-1)),
    ("TI19", Int("(1 | 4 | 9)", [(1, 1), (4, 4), (9, 9)], 1, 9)), ("TI20", Int("(10..20)(ALL EXCEPT 15)", [(10, 14), (16, 20)], 10, 20)),
    ("TI21", Int("(0..10 ^ (5..20 | 2))", [(2, 2), (5, 10)], 2, 10)),
    ("TB2", Refined("BOOLEAN (TRUE)", Bool(), "($ != 0)")),
    ("TE6", Enum(TE1.items, ["ea", "ec", "ed"], "TE1 (ALL EXCEPT eb)")),
    ("TL7", Refined("TL1 (WITH COMPONENT (0..3))", TL1, "(" + " && ".join("($.nCount <= %d || ($.arr[%d] >= 0 && $.arr[%d] <= 3))" % (i, i, i) for i in range(3)) + ")")),
    ("TR3", Real("(0.0<..<10.0)", ["0.5", "9.5"], "$ > 0.0 && $ < 10.0")),
    ("TO6", Octet(1, 4, "SIZE(0..4) ^ SIZE(1..2|4)", [1, 2, 4])),
    ("TW3", Refined("TQ1 (WITH COMPONENTS {qb ABSENT, qi (2..9)})", TQ1, "(!$.exist.qb && $.qi >= 2 && $.qi <= 9)", lambda s: s[1] == "absent")),
]
