"""C35: the generated uPER encodings are those X.691 prescribes."""
from vlib import gu, schema
from vlib.schema import *

# where the compiler is known to deviate from X.691: recorded in known_findings.jsonl
FIND = [
    ("choice_tag_order", "XC", Choice([("fa", R(0, 7)), ("fb", Bool()), ("fc", R(0, 1))], "XC_NONE", order=[2, 0, 1], tags=["[5] ", "[2] ", "[3] "])),
    ("set_tag_order", "XS", Seq([("ga", Bool(), "m"), ("gb", R(0, 3), "m")], kw="SET", order=[1, 0])),
    ("default_value_sent", "XD", Seq([("ha", R(0, 7), ("d", "5", "5")), ("hb", Bool(), "m")])),
    ("real_not_normalised", "XR", Real(vals=["1.0", "-2.5", "0.1"])),
]


def more(g, out):
    types = []
    for _, n, t in FIND:
        types.append((n, t))
    text = schema.module("F", types, "")
    text = text.replace("ga BOOLEAN", "ga [1] BOOLEAN").replace("gb INTEGER", "gb [0] INTEGER")
    fo = g.generate("f", {"f.asn1": text}, ["-uPER", "-equal"])
    fs, top = schema.stub_valid(fo, "f.c")
    for name, n, t in FIND:
        if name == "default_value_sent":
            # the default, although present: X.691 does not encode it
            src = schema.harness(n, t, "f.h", "bits", top=top, shapes=[t.shapes()[0]])
            src = src.replace("v.exist.ha = 0;", "v.exist.ha = 1;")
        else:
            src = schema.harness(n, t, "f.h", "bits", top=top)
        g.add(fo, "f.c", name, src, uw=schema.loops(t), finding=True, unwind=70)


def main():
    return gu.main("C35", "bits", ["The reference encoder is written from X.691 in vlib/schema.py. The contents of REAL are decided in C04."], more=more)
