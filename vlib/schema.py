"""A battery of ASN.1 types with an independent reading of each: what values are valid, when two are equal,
and the bits X.691 prescribes. Only the C struct layout (member names) is shared with the generated code."""
import os, re


def width(lo, hi):
    return (hi - lo).bit_length()


def lit(v, uns):
    if uns:
        return "%dULL" % v
    return "(-9223372036854775807LL-1)" if v == -(1 << 63) else "%dLL" % v


class T:
    ptr = True            # passed to the generated functions as &v
    cls = ""

    def arg(self, lv):
        return "&" + lv if self.ptr else lv


class Int(T):
    """ranges: the admitted values; lo/hi: the PER-visible effective constraint (None: unbounded)"""
    def __init__(self, text="", ranges=None, lo=None, hi=None, uns=None):
        self.text = "INTEGER" + (" " + text if text else "")
        self.lo, self.hi = lo, hi
        self.uns = (lo is not None and lo >= 0) if uns is None else uns
        self.ranges = ranges if ranges is not None else [(lo, hi)]

    def asn(self):
        return self.text

    def shapes(self):
        if self.lo is not None and self.hi is not None:
            return [None]
        return list(range(1, 9))

    def raw(self, lv):
        return ["%s = vin64();" % lv]

    def fill(self, s, lv):
        o = ["%s = vin64();" % lv]
        if s is None:
            return o
        o.append("HINT[HN++] = %d;" % s)
        if self.lo is not None:
            d = "((uint64_t)%s - (uint64_t)%s)" % (lv, lit(self.lo, self.uns))
            o.append("ASSUME(%s >= %s);" % (lv, lit(self.lo, self.uns)))
            if s > 1:
                o.append("ASSUME(%s >= (1ULL << %d));" % (d, 8 * (s - 1)))
            if s < 8:
                o.append("ASSUME(%s < (1ULL << %d));" % (d, 8 * s))
        else:
            if s < 8:
                o.append("ASSUME(%s >= -(1LL << %d) && %s < (1LL << %d));" % (lv, 8 * s - 1, lv, 8 * s - 1))
            if s > 1:
                o.append("ASSUME(!(%s >= -(1LL << %d) && %s < (1LL << %d)));" % (lv, 8 * s - 9, lv, 8 * s - 9))
        return o

    def valid(self, lv):
        r = []
        for lo, hi in self.ranges:
            c = []
            if lo is not None and not (self.uns and lo == 0):
                c.append("%s >= %s" % (lv, lit(lo, self.uns)))
            if hi is not None:
                c.append("%s <= %s" % (lv, lit(hi, self.uns)))
            r.append("(" + (" && ".join(c) or "1") + ")")
        return "(" + " || ".join(r) + ")"

    def eq(self, a, b):
        return "(%s == %s)" % (a, b)

    def bits(self, s, lv):
        if s is None:
            w = width(self.lo, self.hi)
            return ["PUT((uint64_t)%s - (uint64_t)%s, %d);" % (lv, lit(self.lo, self.uns), w)] if w else []
        off = " - (uint64_t)%s" % lit(self.lo, self.uns) if self.lo is not None else ""
        return ["PUT(%d, 8);" % s, "PUT((uint64_t)%s%s, %d);" % (lv, off, 8 * s)]


def R(lo, hi):
    return Int("(%s..%s)" % (lo, hi), lo=lo, hi=hi)


class Bool(T):
    def asn(self):
        return "BOOLEAN"

    def shapes(self):
        return [None]

    def raw(self, lv):
        return ["%s = (vin8() & 1);" % lv]

    def fill(self, s, lv):
        return self.raw(lv)

    def valid(self, lv):
        return "1"

    def eq(self, a, b):
        return "(%s == %s)" % (a, b)

    def bits(self, s, lv):
        return ["PUT(%s ? 1 : 0, 1);" % lv]


class Null(T):
    def asn(self):
        return "NULL"

    def shapes(self):
        return [None]

    def raw(self, lv):
        return ["%s = 0;" % lv]

    fill = lambda self, s, lv: self.raw(lv)
    valid = lambda self, lv: "1"
    eq = lambda self, a, b: "1"
    bits = lambda self, s, lv: []


class Enum(T):
    def __init__(self, items, allowed=None, text=None):
        self.items, self.allowed, self.text = items, allowed or [n for n, _ in items], text
        self.vals = [v for n, v in items if n in self.allowed]

    def asn(self):
        return self.text or "ENUMERATED { %s }" % ", ".join("%s(%d)" % i for i in self.items)

    def shapes(self):
        return self.vals

    def raw(self, lv):
        return ["*(int*)&%s = (int)vin32();" % lv]

    def fill(self, s, lv):
        return ["%s = %d;" % (lv, s)]

    def valid(self, lv):
        return "(" + " || ".join("(int)%s == (%d)" % (lv, v) for n, v in self.items if n in self.allowed) + ")"

    def eq(self, a, b):
        return "(%s == %s)" % (a, b)

    def bits(self, s, lv):
        vs = sorted(v for _, v in self.items)
        e = "0"
        for i, v in enumerate(vs):
            e = "((int)%s == (%d) ? %d : %s)" % (lv, v, i, e)
        w = width(0, len(vs) - 1)
        return ["PUT(%s, %d);" % (e, w)] if w else []


class Sized(T):
    """lo..hi: effective size constraint; sizes: the admitted ones"""
    def __init__(self, lo, hi, text=None, sizes=None, use=None):
        self.lo, self.hi = lo, hi
        self.sz = text or ("SIZE(%d)" % lo if lo == hi else "SIZE(%d..%d)" % (lo, hi))
        self.sizes = sizes or list(range(lo, hi + 1))
        self.use = use or self.sizes       # the sizes tried
        self.fixed = lo == hi

    def n(self, lv):
        return str(self.lo) if self.fixed else "%s.nCount" % lv

    def vsize(self, lv):
        if self.fixed:
            return "1"
        if self.sizes == list(range(self.lo, self.hi + 1)):
            return "(%s.nCount >= %d && %s.nCount <= %d)" % (lv, self.lo, lv, self.hi)
        return "(" + " || ".join("%s.nCount == %d" % (lv, k) for k in self.sizes) + ")"

    def setn(self, s, lv):
        return [] if self.fixed else ["%s.nCount = %d;" % (lv, s)]

    def rawn(self, lv):
        return [] if self.fixed else ["%s.nCount = (int)vin32();" % lv]

    def lenbits(self, s):
        w = width(self.lo, self.hi)
        return ["PUT(%d, %d);" % (s - self.lo, w)] if w else []


class Octet(Sized):
    def asn(self):
        return "OCTET STRING (%s)" % self.sz

    def shapes(self):
        return self.use

    def raw(self, lv):
        return self.rawn(lv) + ["ANY(%s.arr, %d);" % (lv, self.hi)]

    def fill(self, s, lv):
        return self.setn(s, lv) + ["ANY(%s.arr, %d);" % (lv, s)]

    def valid(self, lv):
        return self.vsize(lv)

    def eq(self, a, b):
        if self.fixed:
            return "SAME(%s.arr, %s.arr, %d)" % (a, b, self.lo)
        return "(%s.nCount == %s.nCount && SAME(%s.arr, %s.arr, %s.nCount))" % (a, b, a, b, a)

    def bits(self, s, lv):
        return self.lenbits(s) + ["PUT(%s.arr[%d], 8);" % (lv, i) for i in range(s)]


class Bits(Sized):
    def asn(self):
        return "BIT STRING (%s)" % self.sz

    def shapes(self):
        return self.use

    def raw(self, lv):
        return self.rawn(lv) + ["ANY(%s.arr, %d);" % (lv, (self.hi + 7) // 8)]

    def fill(self, s, lv):
        return self.setn(s, lv) + ["ANY(%s.arr, %d);" % (lv, (s + 7) // 8)]

    def valid(self, lv):
        return self.vsize(lv)

    def eq(self, a, b):
        if self.fixed:
            return "SAMEB(%s.arr, %s.arr, %d)" % (a, b, self.lo)
        return "(%s.nCount == %s.nCount && SAMEB(%s.arr, %s.arr, %s.nCount))" % (a, b, a, b, a)

    def bits(self, s, lv):
        o = self.lenbits(s)
        for i in range(0, s, 8):
            k = min(8, s - i)
            o.append("PUT(%s.arr[%d] >> %d, %d);" % (lv, i // 8, 8 - k, k))
        return o


class Str(Sized):
    """Known-multiplier string; chars: effective permitted alphabet"""
    ptr = False

    def __init__(self, lo, hi, base="IA5String", alpha=None, chars=None, text=None, sizes=None, use=None):
        Sized.__init__(self, lo, hi, text, sizes, use)
        self.base, self.alpha = base, alpha
        std = dict(IA5String=range(0, 128), VisibleString=range(32, 127), NumericString=[32] + list(range(48, 58)),
                   PrintableString=[ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?"])[base]
        self.chars = sorted(ord(c) for c in chars) if chars else sorted(std)

    def asn(self):
        return "%s (%s)%s" % (self.base, self.sz, "(FROM(%s))" % self.alpha if self.alpha else "")

    def shapes(self):
        return self.use

    def raw(self, lv):
        return ["ANY((byte*)%s, %d);" % (lv, self.hi), "%s[%d] = 0;" % (lv, self.hi)]

    def fill(self, s, lv):
        return ["ANY((byte*)%s, %d);" % (lv, s), "%s[%d] = 0;" % (lv, s), "SLEN(%s, %d);" % (lv, s)] + ["ASSUME(%s[%d] != 0);" % (lv, i) for i in range(s)]

    def ok(self, e):
        cs, r, i = [c for c in self.chars if c], [], 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            r.append("((byte)%s >= %d && (byte)%s <= %d)" % (e, cs[i], e, cs[j]))
            i = j + 1
        return "(" + " || ".join(r) + ")"

    def valid(self, lv):
        n = "LEN(%s, %d)" % (lv, self.hi)
        c = ["(" + " || ".join("%s == %d" % (n, k) for k in self.sizes) + ")" if self.sizes != list(range(self.lo, self.hi + 1)) else "(%s >= %d)" % (n, self.lo)]
        c += ["(%s <= %d || %s)" % (n, i, self.ok("%s[%d]" % (lv, i))) for i in range(self.hi)]
        return "(" + " && ".join(c) + ")"

    def eq(self, a, b):
        return "SAMES(%s, %s, %d)" % (a, b, self.hi)

    def bits(self, s, lv):
        o = self.lenbits(s)
        w = width(0, len(self.chars) - 1)
        direct = self.chars[-1] <= (1 << w) - 1
        for i in range(s):
            e = "(byte)%s[%d]" % (lv, i)
            if not direct:
                x, prev = "0", None
                k = 0
                # index of the character in the alphabet, run by run
                runs = []
                for j, c in enumerate(self.chars):
                    if runs and c == runs[-1][1] + 1:
                        runs[-1][1] = c
                    else:
                        runs.append([c, c, j])
                for a, b, j in runs:
                    x = "(%s >= %d && %s <= %d ? %s - %d + %d : %s)" % (e, a, e, b, e, a, j, x)
                e = x
            if w:
                o.append("PUT(%s, %d);" % (e, w))
        return o


class Real(T):
    """Values tried: a list of concrete ones (their bits are decided in C04)."""
    def __init__(self, text="", vals=("0.0", "1.0", "-2.5"), cond="1"):
        self.text, self.vals, self.cond = "REAL" + (" " + text if text else ""), list(vals), cond

    def asn(self):
        return self.text

    def shapes(self):
        return self.vals

    def raw(self, lv):
        return ["VDBL(%s);" % lv]

    def fill(self, s, lv):
        return ["%s = %s;" % (lv, s)]

    def valid(self, lv):
        return "(" + self.cond.replace("$", lv) + ")"

    def eq(self, a, b):
        return "(%s == %s)" % (a, b)

    def bits(self, s, lv):
        import struct
        v = float(s)
        if v == 0.0:
            return ["PUT(0, 8);"]
        q = struct.unpack(">Q", struct.pack(">d", v))[0]
        e, m = ((q >> 52) & 0x7FF) - 1075, (q & ((1 << 52) - 1)) | (1 << 52)
        while not m & 1:
            m >>= 1
            e += 1
        el = 1 if -128 <= e <= 127 else 2
        ml = (m.bit_length() + 7) // 8
        return ["PUT(%d, 8);" % (1 + el + ml), "PUT(%d, 8);" % (0x80 | (0x40 if v < 0 else 0) | (el - 1)),
                "PUT(%d, %d);" % (e & ((1 << 8 * el) - 1), 8 * el), "PUT(%dULL, %d);" % (m, 8 * ml)]


class Ref(T):
    def __init__(self, name, to):
        self.name, self.to, self.ptr = name, to, to.ptr

    def asn(self):
        return self.name

    def __getattr__(self, k):
        return getattr(self.to, k)

    def shapes(self):
        return self.to.shapes()


class Seq(T):
    """fields: (name, type, 'm' | 'o' | ('d', asn default, C expression of it))"""
    def __init__(self, fields, kw="SEQUENCE", order=None):
        self.fields, self.kw, self.order = fields, kw, order

    def asn(self):
        o = []
        for n, t, p in self.fields:
            o.append("%s %s%s" % (n.replace("_", "-"), t.asn(), "" if p == "m" else " OPTIONAL" if p == "o" else " DEFAULT " + p[1]))
        return "%s { %s }" % (self.kw, ", ".join(o))

    def shapes(self):
        """Presence is covered in every combination for up to 3 optional fields, sub-shapes one field at a time."""
        base = tuple(t.shapes()[0] for _, t, _ in self.fields)
        opts = [i for i, f in enumerate(self.fields) if f[2] != "m"]
        out, seen = [], set()

        def add(v):
            if repr(v) not in seen:
                seen.add(repr(v))
                out.append(v)
        for m in range(1 << len(opts)):
            v = list(base)
            for k, i in enumerate(opts):
                v[i] = ("P", v[i]) if (m >> k) & 1 else "absent"
            add(tuple(v))
        for i, (n, t, p) in enumerate(self.fields):
            for s in t.shapes():
                v = [("P", b) if self.fields[j][2] != "m" else b for j, b in enumerate(base)]
                v[i] = s if p == "m" else ("P", s)
                add(tuple(v))
        # every field at its last shape: the longest encoding
        add(tuple((t.shapes()[-1] if p == "m" else ("P", t.shapes()[-1])) for n, t, p in self.fields))
        return out

    def raw(self, lv):
        o = []
        for n, t, p in self.fields:
            if p != "m":
                o.append("%s.exist.%s = vin8() & 1;" % (lv, n))
            o += t.raw("%s.%s" % (lv, n))
        return o

    def fill(self, s, lv):
        o = []
        for (n, t, p), x in zip(self.fields, s):
            if p != "m":
                o.append("%s.exist.%s = %d;" % (lv, n, x != "absent"))
                if x == "absent":
                    if p != "o":
                        o.append("%s.%s = %s;" % (lv, n, p[2]))
                    continue
                x = x[1]
            o += t.fill(x, "%s.%s" % (lv, n))
            if p not in ("m", "o"):
                o.append("ASSUME(!(%s.%s == %s));" % (lv, n, p[2]))
        return o

    def valid(self, lv):
        c = []
        for n, t, p in self.fields:
            v = t.valid("%s.%s" % (lv, n))
            c.append(v if p == "m" else "(!%s.exist.%s || %s)" % (lv, n, v))
        return "(" + " && ".join(c) + ")"

    def eq(self, a, b):
        c = []
        for n, t, p in self.fields:
            e = t.eq("%s.%s" % (a, n), "%s.%s" % (b, n))
            if p == "m":
                c.append(e)
            else:
                c.append("(%s.exist.%s == %s.exist.%s && (!%s.exist.%s || %s))" % (a, n, b, n, a, n, e))
        return "(" + " && ".join(c) + ")"

    def bits(self, s, lv):
        fs = list(zip(self.fields, s))
        if self.order:
            fs = [fs[i] for i in self.order]
        o = ["PUT(%d, 1);" % (x != "absent") for (n, t, p), x in fs if p != "m"]
        for (n, t, p), x in fs:
            if x == "absent":
                continue
            o += t.bits(x if p == "m" else x[1], "%s.%s" % (lv, n))
        return o


class Choice(T):
    """alts: (name, type); order: positions in tag order (default textual)"""
    def __init__(self, alts, none, order=None, tags=None, kinds=None):
        self.alts, self.none = alts, none
        self.idx = order or list(range(len(alts)))
        self.tags = tags or [""] * len(alts)
        self.kinds = kinds or ["%s_PRESENT" % n for n, _ in alts]

    def asn(self):
        return "CHOICE { %s }" % ", ".join("%s %s%s" % (n.replace("_", "-"), g, t.asn()) for (n, t), g in zip(self.alts, self.tags))

    def shapes(self):
        return [(i, s) for i, (n, t) in enumerate(self.alts) for s in t.shapes()]

    def k(self, i):
        return self.kinds[i]

    def raw(self, lv):
        o = ["*(int*)&%s.kind = (int)vin32();" % lv]
        for i, (n, t) in enumerate(self.alts):
            o.append("if (%s.kind == %s) {" % (lv, self.k(i)))
            o += t.raw("%s.u.%s" % (lv, n)) + ["}"]
        return o

    def fill(self, s, lv):
        n, t = self.alts[s[0]]
        return ["%s.kind = %s;" % (lv, self.k(s[0]))] + t.fill(s[1], "%s.u.%s" % (lv, n))

    def valid(self, lv):
        return "(" + " || ".join("(%s.kind == %s && %s)" % (lv, self.k(i), t.valid("%s.u.%s" % (lv, n))) for i, (n, t) in enumerate(self.alts)) + ")"

    def eq(self, a, b):
        return "(%s.kind == %s.kind && (" % (a, b) + " || ".join(
            "(%s.kind == %s && %s)" % (a, self.k(i), t.eq("%s.u.%s" % (a, n), "%s.u.%s" % (b, n))) for i, (n, t) in enumerate(self.alts)) + "))"

    def bits(self, s, lv):
        n, t = self.alts[s[0]]
        w = width(0, len(self.alts) - 1)
        return (["PUT(%d, %d);" % (self.idx[s[0]], w)] if w else []) + t.bits(s[1], "%s.u.%s" % (lv, n))


class SeqOf(Sized):
    def __init__(self, lo, hi, elem, kw="SEQUENCE", **k):
        Sized.__init__(self, lo, hi, **k)
        self.elem, self.kw = elem, kw

    def asn(self):
        return "%s (%s) OF %s" % (self.kw, self.sz, self.elem.asn())

    def shapes(self):
        es = self.elem.shapes()
        out = []
        for n in self.use:
            if n == 0:
                out.append(())
            else:
                # the elements run through the element's shapes
                for j in range(0, len(es)):
                    out.append(tuple(es[(j + i) % len(es)] for i in range(n)))
        return out

    def e(self, lv, i):
        return "%s.arr[%d]" % (lv, i)

    def raw(self, lv):
        o = self.rawn(lv)
        for i in range(self.hi):
            o += self.elem.raw(self.e(lv, i))
        return o

    def fill(self, s, lv):
        o = self.setn(len(s), lv)
        for i, x in enumerate(s):
            o += self.elem.fill(x, self.e(lv, i))
        return o

    def valid(self, lv):
        n = self.n(lv)
        return "(" + " && ".join([self.vsize(lv)] + ["(%s <= %d || %s)" % (n, i, self.elem.valid(self.e(lv, i))) for i in range(self.hi)]) + ")"

    def eq(self, a, b):
        c = [] if self.fixed else ["%s.nCount == %s.nCount" % (a, b)]
        c += ["(%s <= %d || %s)" % (self.n(a), i, self.elem.eq(self.e(a, i), self.e(b, i))) for i in range(self.hi)]
        return "(" + " && ".join(c) + ")"

    def bits(self, s, lv):
        o = self.lenbits(len(s))
        for i, x in enumerate(s):
            o += self.elem.bits(x, self.e(lv, i))
        return o


class Refined(T):
    """A type whose further constraint is not PER-visible: same bits, fewer values. `keep` tells which shapes remain."""
    def __init__(self, text, base, cond, keep=lambda s: True):
        self.text, self.base, self.cond, self.keep, self.ptr = text, base, cond, keep, base.ptr

    def asn(self):
        return self.text

    def shapes(self):
        return [s for s in self.base.shapes() if self.keep(s)]

    def valid(self, lv):
        return "(%s && %s)" % (self.base.valid(lv), self.cond.replace("$", lv))

    def __getattr__(self, k):
        if k == "base":
            raise AttributeError(k)
        return getattr(self.base, k)


def module(name, types, tags="AUTOMATIC TAGS"):
    return "%s DEFINITIONS %s ::= BEGIN\n%s\nEND\n" % (name, tags, "\n".join("%s ::= %s" % (n, t.asn()) for n, t in types))


PRE = r'''
#include "vh.h"
#include "%(hdr)s"
#define MAXBYTES %(NE)d
%(cfg)s#include "bits.h"
static %(T)s v, w;
static BitStream S;
static void done(void) { REACH("any encoded"); }
static inline void FILLW(void) { memset(&w, vin8(), sizeof(w)); }
'''


def arms(shapes, body):
    """One arm per shape: the shape is concrete inside it, everything else symbolic."""
    o = ["uint32_t sh = vin_range(0, %d);" % (len(shapes) - 1)]
    for i, s in enumerate(shapes):
        o.append("if (sh == %d) {" % i)
        o += ["    " + x for x in body(i, s)]
        o += ["    STOP();", "}"]
    return o


def enc_sig(t, lv, fn="Encode", pre=""):
    return "%s_%s(%s, &S, &err, TRUE)"


# in the quick tier one witness stands for all shapes of a type
DONE = 'REACH("any encoded %d");' if os.environ.get("VERIF_TIER") == "thorough" else "done(); /* %d */"


def unwrap(t):
    """The type behind references, refinements and encoding properties."""
    while isinstance(t, (Ref, Refined)) or hasattr(t, "props") and "base" in vars(t):
        t = t.to if isinstance(t, Ref) else t.base
    return t


def nbits(lines):
    n = 0
    for x in lines:
        m = re.search(r"^ALIGN\((\d+)\)", x)
        n += -n % int(m.group(1)) if m else int(re.search(r", (\d+)\);$", x).group(1))
    return n


def maxbytes(t):
    return max([nbits(t.bits(s, "v")) for s in t.shapes()] + [0]) // 8 + 9


def maxbits(t):
    """The longest uPER encoding, or None for types without a bound."""
    t = unwrap(t)
    if isinstance(t, Int):
        return None if t.lo is None or t.hi is None else width(t.lo, t.hi)
    if isinstance(t, Real):
        return None
    if isinstance(t, Seq):
        k = [maxbits(x) for _, x, _ in t.fields]
        return None if None in k else sum(k) + sum(p != "m" for _, _, p in t.fields)
    if isinstance(t, Choice):
        k = [maxbits(x) for _, x in t.alts]
        return None if None in k else max(k) + width(0, len(t.alts) - 1)
    if isinstance(t, SeqOf):
        k = maxbits(t.elem)
        return None if k is None else t.hi * k + width(t.lo, t.hi)
    return nbits(t.bits(t.shapes()[-1], "v"))


def maxn(t):
    """Largest count in the type (bits, octets, characters, elements)."""
    t = unwrap(t)
    k = t.hi if isinstance(t, Sized) else 0
    for c in [x[1] for x in getattr(t, "fields", [])] + [x[1] for x in getattr(t, "alts", [])] + ([t.elem] if isinstance(t, SeqOf) else []):
        k = max(k, maxn(c))
    return k


BYN = ("SAME SAMEB LEN SAMES memcmp strlen BitStream_AppendByteArray BitStream_EncodeOctetString_no_length BitStream_AppendBits BitStream_ReadByteArray "
       "BitStream_DecodeOctetString_no_length BitStream_ReadBits BitStream_AppendNBitZero BitStream_AppendNBitOne").split()


def lead(t):
    """Bits at the start of an encoding that decide its shape."""
    t = unwrap(t)
    if isinstance(t, Seq):
        return min(4, sum(p != "m" for _, _, p in t.fields))
    if isinstance(t, Choice):
        return width(0, len(t.alts) - 1)
    if isinstance(t, SeqOf):
        return width(t.lo, t.hi) + (lead(t.elem) if t.lo else 0)
    if isinstance(t, Sized):
        return min(3, width(t.lo, t.hi))
    return 0


def loops(t):
    """Bounds of the harness's own loops for this type."""
    n = max(maxn(t), 8) + 2
    uw = {"%s.%d" % (f, k): n for f in BYN for k in range(2)}
    uw.update({"BitStream_AppendBits.%d" % k: max(n, 34) for k in range(2)})
    uw.update({"samebits.0": 8 * maxbytes(t) + 2, "ANY.0": n, "anyinput.0": 9, "anyinput.1": 9, "anyinput.2": maxbytes(t) + 2})
    return uw


def stub_valid(out, main):
    """The validation is decided on its own (C34); where the value is known to be valid it says so."""
    hdr = open(os.path.join(out, main[:-2] + ".h")).read()
    fs = re.findall(r"^flag\s+(\w+_IsConstraintValid)\(([^)]*)\);", hdr, re.M)
    return [f for f, _ in fs], "#ifdef VH_CBMC\n" + "\n".join("flag %s(%s) { (void)pVal; *pErrCode = 0; return TRUE; }" % f for f in fs) + "\n#endif\n"


def csize(t):
    """Octets the generated C type takes, at least (under the solver the alternatives of a choice lie side by side)."""
    t = unwrap(t)
    if isinstance(t, SeqOf):
        return 4 + t.hi * csize(t.elem)
    if isinstance(t, Bits):
        return 4 + (t.hi + 7) // 8
    if isinstance(t, Sized):
        return 8 + t.hi
    return 8 + sum(csize(x[1]) for x in list(getattr(t, "fields", [])) + list(getattr(t, "alts", [])))


def longer(t):
    """Octets by which the longest input of a decoder exceeds the announced size: an over-long count runs out of the value."""
    return 0 if not maxn(t) or csize(t) > 100 else min(csize(t) + 4, 48)


def harness(tname, t, hdr, mode, mac=None, pfx="", shapes=None, ne=None, top="", longer=0):
    """C text of the harness function `h` for a type.  mode: rt, bits, size, valid, dec, equal.
    pfx: what comes between the type name and _Encode (ACN_ for ACN)."""
    cn, m = tname, mac or tname + "_"
    REQB, REQ = "%s%sREQUIRED_BYTES_FOR_%sENCODING" % (m, "", pfx), "%sREQUIRED_BITS_FOR_%sENCODING" % (m, pfx)
    enc, dec = "%s_%sEncode" % (cn, pfx), "%s_%sDecode" % (cn, pfx)
    shapes = shapes if shapes is not None else t.shapes()
    out = [PRE % dict(cfg="#define CMPMAX %d\n#define STRMAX %d\n" % (max(maxn(t), 8), max(maxn(t), 8)), hdr=hdr, T=cn, NE=(ne or maxbytes(t)) + longer), top, "static byte B[(%s > 0 ? %s : 1) + %d];" % (REQB, REQB, longer), "void h(void) {", "    int err = 0; flag ret; long n; int i;", "    (void)n; (void)i;"]
    av, aw = t.arg("v"), t.arg("w")
    encode = ["ENCINIT();", "BitStream_Init(&S, B, sizeof(B));", "ret = %s(%s, &S, &err, TRUE);" % (enc, av), 'CHECK(ret && err == 0, "a valid value is refused by the encoder");',
              "n = (long)S.currentByte * 8 + S.currentBit;"]
    if mode in ("rt", "bits", "size"):
        def body(i, s):
            o = t.fill(s, "v") + ["ASSUME(%s);" % t.valid("v")] + encode
            if mode == "rt":
                o += [DONE % i, "BitStream_AttachBuffer(&S, B, (n + 7) / 8);", "FILLW();", "ret = %s(%s, &S, &err);" % (dec, aw),
                      'CHECK(ret && err == 0, "the encoding of a valid value is refused by the decoder");',
                      'CHECK((long)S.currentByte * 8 + S.currentBit == n, "the decoder consumed another number of bits than were written");',
                      'CHECK(%s, "the decoded value differs from the encoded one");' % t.eq("v", "w")]
            if mode == "size":
                o += ['CHECK(n <= %s && %s == (%s + 7) / 8, "the announced size is too small");' % (REQ, REQB, REQ), DONE % i]
            if mode == "bits":
                o +=  t.bits(s, "v") + ['CHECK(n == EP, "the encoding has another length than prescribed");',
                      'CHECK(SAMEBITS(EP), "the encoding has other bits than prescribed");', DONE % i]
            return o
        out += ["    " + x for x in arms(shapes, body)]
    elif mode == "valid":
        o = t.raw("v") + ["err = 0;", "ret = %s_IsConstraintValid(%s, &err);" % (cn, av), "int ok = %s;" % t.valid("v"),
                          'CHECK((ret != 0) == (ok != 0), "the validation accepts other values than the constraints admit");',
                          'CHECK((err == 0) == (ret != 0), "the error code contradicts the verdict");',
                          "if (ok) { REACH(\"any valid\"); } else { REACH(\"any invalid\"); }"]
        out += ["    " + x for x in o]
    elif mode == "init":
        out += ["    FILLW();", "    %s_Initialize(%s);" % (cn, aw), '    CHECK(%s, "the initial value does not satisfy the constraints");' % t.valid("w"),
                "    ret = %s_IsConstraintValid(%s, &err);" % (cn, aw), '    CHECK(ret && err == 0, "the initial value is refused by the validation");', '    REACH("initialised");']
    elif mode == "dec":
        L = lead(t)

        def dbody(i, s):
            k, m = s
            k += longer
            return ["long len = (long)sizeof(B) - %d;" % k, "byte *D = B + %d;" % k, "anyinput(D, len, %d, %d);" % (L, m), "BitStream_AttachBuffer(&S, D, len);", "FILLW();",
                    "ret = %s(%s, &S, &err);" % (dec, aw),
                    "if (ret) {", '    CHECK(%s, "the decoder delivered a value that violates the constraints");' % t.valid("w"),
                    '    CHECK((long)S.currentByte * 8 + S.currentBit <= 8 * len, "the decoder went past the end");', "    done();",
                    '} else refused();']
        out[1:1] = ['static void refused(void) { REACH("any refused"); }']
        out += ["    " + x for x in arms([(k, m) for k in ([-longer] if longer else []) + list(shapes) for m in range(1 << L)], dbody)]
    elif mode == "equal":
        out += ["    " + x for x in t.raw("v") + t.raw("w")] + ["    ASSUME(%s && %s);" % (t.valid("v"), t.valid("w")),
                "    ret = %s_Equal(%s, %s);" % (cn, av, aw), "    i = %s;" % t.eq("v", "w"),
                '    CHECK((ret != 0) == (i != 0), "the equality function differs from equality of the values");',
                '    if (i) REACH("any equal"); else REACH("any different");']
    out.append("}")
    return "\n".join(out) + "\n"
