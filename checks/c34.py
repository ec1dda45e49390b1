"""C34: the generated validation accepts exactly the values the constraints admit; the initial value is one of them."""
from vlib import gu, schema, battery


# listed in known_findings.jsonl
FOUND = dict(TW2="refined_choice_init", TW3="refined_sequence_init", TR3="real_exclusive_bound_init")


def more(g, out):
    for n, t in battery.UPER:
        if n != "TN1":
            g.add(out, "u.c", FOUND.get(n, n + "_init"), schema.harness(n, t, "u.h", "init"), uw=schema.loops(t), finding=n in FOUND)


def main():
    return gu.main("C34", "valid", ["Counts, alternatives and enumerators range over the whole of int; strings are arbitrary bytes with a terminator within their array."], more=more)
