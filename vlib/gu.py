"""uPER checks on the battery."""
import os
from vlib.gencheck import Gen, STUBS, STUBS_ACN
from vlib import schema, battery

THOROUGH = dict(dec=("TO5", "TL4"))
ASSUME = ["The code decided is what the compiler, built from the working tree in this run, generates for the battery of types in vlib/battery.py; other specifications are outside the bound.",
          "Every combination of presence, alternative, enumerator and length of a type is run (sub-shapes of a component one component at a time); every number, octet, bit and character is symbolic.",
          "Under the solver the bit-level primitives of the runtime are replaced by what C01-C08 decide of them (harness/bits.h), and the members of the union of a CHOICE lie side by side; witnesses and counterexamples are replayed on the unmodified generated code and runtime."]

ASSUME_ACN = [ASSUME[0].replace("battery.py", "abattery.py"), ASSUME[1], ASSUME[2].replace("C01-C08", "C01-C15").replace("harness/bits.h", "harness/bits.h, bits_acn.h")]


def longer(t, kw):
    """Decoders of types with a length also get inputs longer than announced: an over-long count finds its items."""
    if schema.longer(t):
        kw["longer"] = schema.longer(t)


def bounds(t, kw, mx=None):
    uw = schema.loops(t)
    uw["anyinput.2"] = (mx + 2 if mx else uw["anyinput.2"]) + kw.get("longer", 0)
    return uw


def main(prop, mode, assumptions=(), types=None, more=None):
    g = Gen(prop)
    out = g.generate("u", {"u.asn1": schema.module("U", battery.UPER)}, ["-uPER", "-equal"])
    fs, top = schema.stub_valid(out, "u.c") if mode in ("rt", "bits", "size") else ([], "")
    for n, t in types or battery.UPER:
        if mode == "valid" and n == "TN1" or mode in ("bits", "equal") and n.startswith("TR"):
            continue        # NULL has no validation; REAL: C04 and the checks of its own below
        kw = {}
        if mode == "dec":
            kw["shapes"] = [0] if isinstance(t, (schema.Bool, schema.Null, schema.Enum)) else [0, 1]
            longer(t, kw)
        g.add(out, "u.c", n, schema.harness(n, t, "u.h", mode, top=top, **kw), stubs=STUBS + fs, uw=bounds(t, kw), defs=["VH_RT"] if mode == "rt" else [],
              thorough=n in THOROUGH.get(mode, ()))
    real(g, out, mode, "u.c", "u.h", dict(types or battery.UPER), REAL, top, fs)
    if more:
        more(g, out)
    return g.finish(ASSUME + list(assumptions))


# types decided with the real primitives of the runtime as well
REAL = "TI2 TB1 TE1 TO2 TBS2 TS2".split()
REAL_ACN = "AI3 AI4 AI5 AI8 AI10 AB1 AB2 AN1 AS3 AS1 AO2 ABS2 AE1 AI12 AI13 AI14".split()


def real(g, out, mode, unit, hdr, types, names, top, fs, pfx=""):
    if mode not in ("rt", "bits", "dec"):
        return
    for n in names:
        t = types[n]
        kw = dict(shapes=[0]) if mode == "dec" else {}
        mx = getattr(t, "mx", None)
        if mode == "dec":
            longer(t, kw)
        uw = bounds(t, kw, mx)
        uw.pop("strlen.0", None)
        uw["anyinput.0"] = uw["anyinput.2"]
        g.add(out, unit, "R_" + n, schema.harness(n, t, hdr, mode, top=top, pfx=pfx, ne=mx, **kw), stubs=fs, uw=uw, defs=["VH_REALRT"])


def acn(g, mode, only=None):
    """The same on the ACN battery."""
    from vlib import abattery, aschema
    out = g.generate("a", {"a.asn1": schema.module("A", abattery.ALL), "a.acn": aschema.acn_module("A", abattery.ALL)}, ["-ACN", "-equal"])
    fs, top = schema.stub_valid(out, "a.c") if mode in ("rt", "bits", "size") else ([], "")
    for n, t in abattery.ACN:
        kw, kw2 = {}, {}
        if mode == "dec":
            kw["shapes"] = [0, 1]
            longer(t, kw)
        mx = getattr(t, "mx", None)
        uw = bounds(t, kw, mx)
        if n == "AE3" and mode == "bits":
            kw2["finding"] = True
        g.add(out, "a.c", n, schema.harness(n, t, "a.h", mode, top=top, pfx="ACN_", ne=mx, **kw), stubs=STUBS + ([] if mode == "dec" else STUBS_ACN) + fs, uw=uw,
              defs=([] if mode == "dec" else ["GACN"]) + (["VH_RT"] if mode == "rt" else []), **kw2)
    real(g, out, mode, "a.c", "a.h", dict(abattery.ACN), REAL_ACN, top, fs, "ACN_")
    return out


def main_acn(prop, mode, assumptions=(), more=None):
    g = Gen(prop)
    acn(g, mode)
    if more:
        more(g)
    return g.finish(ASSUME_ACN + list(assumptions))
