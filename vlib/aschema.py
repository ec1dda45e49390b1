"""Types with an ACN encoding: an independent reading of the ACN properties on top of vlib/schema.py."""
from vlib.schema import *


def hexpat(p):
    """'101'B or 'FF01'H to a bit string"""
    b, k = p.rsplit("'", 1)
    b = b.strip("'")
    return b if k == "B" else "".join(format(int(c, 16), "04b") for c in b)


def putpat(p):
    b = hexpat(p)
    return ["PUT(%dULL, %d);" % (int(b[i:i + 32], 2), len(b[i:i + 32])) for i in range(0, len(b), 32)]


class A(T):
    """A leaf (or anything) with ACN properties; enc(s, lv) gives the bits, absent: those of the base (no properties)."""
    def __init__(self, base, props="", enc=None, args="", shapes=None, hint=None, cond=None, mx=None, pre="", body=""):
        self.base, self.props, self.encf, self.args, self.ptr = base, props, enc, args, base.ptr
        self.sh, self.hint, self.cond, self.mx, self.body = shapes, hint, cond, mx, body

    def asn(self):
        return self.base.asn()

    def acn(self):
        return "[%s] %s" % (self.props, self.body)

    def shapes(self):
        return self.sh if self.sh is not None else self.base.shapes()

    def fill(self, s, lv):
        o = self.base.raw(lv) if self.hint else self.base.fill(s, lv)
        if self.hint:
            o = o + self.hint(s, lv)
        if self.cond:
            o = o + ["ASSUME(%s);" % self.cond.replace("$", lv)]
        return o

    def bits(self, s, lv):
        return self.encf(s, lv) if self.encf else self.base.bits(s, lv)

    def __getattr__(self, k):
        if k == "base":
            raise AttributeError(k)
        return getattr(self.base, k)


def acn_of(t):
    """What stands behind a component's name."""
    if hasattr(t, "acn"):
        return t.acn()
    return "[]"


def pos(n, expr="%s"):
    return lambda s, lv: ["PUT((uint64_t)(%s), %d);" % (expr % lv, n)]


def le(nbytes):
    return lambda s, lv: ["PUT((uint64_t)%s >> %d, 8);" % (lv, 8 * i) for i in range(nbytes)]


def digits(k, w, base, lv):
    return ["PUT(%d + ((uint64_t)%s / %dULL) %% 10, %d);" % (base, lv, 10 ** i, w) for i in range(k - 1, -1, -1)]


def bcd(k):
    return lambda s, lv: digits(k, 4, 0, lv)


def ascii_u(k):
    return lambda s, lv: digits(k, 8, 48, lv)


def absv(lv):
    return "(%s >= 0 ? %s : -%s)" % (lv, lv, lv)


def ascii_s(k):
    return lambda s, lv: ["PUT(%s >= 0 ? '+' : '-', 8);" % lv] + digits(k - 1, 8, 48, absv(lv))


def dhint(mag):
    """s: number of decimal digits"""
    def f(s, lv):
        m = mag(lv)
        c = "%s == 0" % m if s == 0 else ("(%s >= %dULL || %d == 1) && (uint64_t)%s < %dULL" % ("(uint64_t)" + m, 10 ** (s - 1), s, m, 10 ** s))
        return ["HINT[HN++] = %d; DH[DHN++] = %d;" % (s, s), "ASSUME(%s);" % c]
    return f


class AStr(A):
    """Character string with ACN properties. mode: fix, term (pattern), ext, int; idx: index into the alphabet instead of 8 bits"""
    def __init__(self, base, props, mode, pat=None, idx=False, args=""):
        A.__init__(self, base, props, args=args)
        self.mode, self.pat, self.idx = mode, pat, idx

    def fill(self, s, lv):
        o = self.base.fill(s, lv)
        if self.mode == "term":
            o = o + ["DH[DHN++] = %d;" % s]
            p = hexpat(self.pat)
            bs = [int(p[i:i + 8], 2) for i in range(0, len(p), 8)]
            if len(bs) == 1 and bs[0]:
                o += ["ASSUME((byte)%s[%d] != %d);" % (lv, i, bs[0]) for i in range(s)]
            elif len(bs) > 1:
                # the terminator must not be found earlier, neither inside nor across the end
                for i in range(s):
                    c = []
                    for j, b in enumerate(bs):
                        c.append("%s == %d" % ("(byte)%s[%d]" % (lv, i + j) if i + j < s else str(bs[i + j - s]), b))
                    o.append("ASSUME(!(%s));" % " && ".join(c))
        return o

    def bits(self, s, lv):
        o = self.lenbits(s) if self.mode == "int" else []
        if self.idx:
            full = self.base.bits(s, lv)
            o += full[len(full) - s:] if s and len(self.base.chars) > 1 else []
        else:
            o += ["PUT((byte)%s[%d], 8);" % (lv, i) for i in range(s)]
        return o + (putpat(self.pat) if self.mode == "term" else [])


class ASized(A):
    """Octet/bit string or SEQUENCE OF whose count is elsewhere (ext) or marked by a terminator."""
    def __init__(self, base, props, args="", body=None):
        if body is None and isinstance(base, SeqOf) and hasattr(base.elem, "acn"):
            body = "{ %s }" % ("dummy " if False else "") + base.elem.acn() if False else "{ %s }" % base.elem.acn()
        A.__init__(self, base, props, args=args, body=body or "")

    def bits(self, s, lv):
        n = s if isinstance(s, int) else len(s)
        full = self.base.bits(s, lv)
        return full[len(self.base.lenbits(n)):]


class Ins:
    """A field the ACN grammar inserts. asn: type text with properties; enc(s, lv): its bits, where s and lv are those of the parent."""
    def __init__(self, name, text, enc):
        self.name, self.text, self.enc = name, text, enc


class Align:
    pass


class ASeq(Seq):
    """items: (name, type, mode, props) with mode 'm', 'o', ('d', ..) or ('w', condition text) for present-when; Ins objects.
    props may hold align-to-next x, given as ('al', 8)"""
    def __init__(self, items, keep=None, cond=None, params="", kw="SEQUENCE", props=""):
        self.items, self.params, self.props = items, params, props
        fs = []
        for it in items:
            if not isinstance(it, Ins):
                fs.append((it[0], it[1], "o" if it[2][0] == "w" else it[2]))
        Seq.__init__(self, fs, kw=kw)
        self.keep, self.cond = keep, cond

    def acn(self):
        o = []
        for it in self.items:
            if isinstance(it, Ins):
                o.append("%s %s" % (it.name, it.text))
                continue
            n, t, p = it[:3]
            al = it[3] if len(it) > 3 else 0
            a = acn_of(t).strip()
            inner, rest = a[1:a.index("]")], a[a.index("]") + 1:]
            ps = [x for x in [inner.strip(), "present-when " + p[1] if p[0] == "w" else "", {8: "align-to-next byte", 16: "align-to-next word", 32: "align-to-next dword"}.get(al, "")] if x]
            args = getattr(t, "args", "")
            o.append("%s %s[%s]%s" % (n.replace("_", "-"), args + " " if args else "", ", ".join(ps), rest))
        return "[%s] { %s }" % (self.props, ", ".join(o))

    def shapes(self):
        return [s for s in Seq.shapes(self) if not self.keep or self.keep(s)]

    def fill(self, s, lv):
        return Seq.fill(self, s, lv) + (["ASSUME(%s);" % self.cond.replace("$", lv)] if self.cond else [])

    def sub(self, s, name):
        """The shape of a component; None if absent."""
        for (n, t, p), x in zip(self.fields, s):
            if n == name:
                return x if p == "m" else None if x == "absent" else x[1]

    def has(self, s, name):
        return dict(zip([f[0] for f in self.fields], s))[name] != "absent"

    def bits(self, s, lv):
        o, k = [], 0
        mode = {it[0]: it[2] for it in self.items if not isinstance(it, Ins)}
        for (n, t, p), x in zip(self.fields, s):
            if mode[n] == "o" or mode[n][0] == "d":
                o.append("PUT(%d, 1);" % (x != "absent"))
        for it in self.items:
            if isinstance(it, Ins):
                o += it.enc(s, lv)
                continue
            x = s[k]
            k += 1
            if x == "absent":
                continue
            if len(it) > 3:
                o.append("ALIGN(%d);" % it[3])
            o += it[1].bits(x if it[2] == "m" else x[1], "%s.%s" % (lv, it[0]))
        return o


class AChoice(Choice):
    """conds: present-when texts, or None with a determinant; no index bits in either case"""
    def __init__(self, alts, none, conds=None, props="", kinds=None):
        Choice.__init__(self, alts, none, kinds=kinds)
        self.conds, self.props = conds, props

    def acn(self):
        o = []
        for i, (n, t) in enumerate(self.alts):
            a = acn_of(t).strip()
            inner, rest = a[1:a.index("]")], a[a.index("]") + 1:]
            ps = [x for x in [inner.strip(), "present-when " + self.conds[i] if self.conds else ""] if x]
            args = getattr(t, "args", "")
            o.append("%s %s[%s]%s" % (n.replace("_", "-"), args + " " if args else "", ", ".join(ps), rest))
        return "[%s] { %s }" % (self.props, ", ".join(o))

    def bits(self, s, lv):
        n, t = self.alts[s[0]]
        return t.bits(s[1], "%s.u.%s" % (lv, n))


class ARef(Ref):
    """Reference with arguments; the properties are those of the referenced type."""
    def __init__(self, name, to, args=""):
        Ref.__init__(self, name, to)
        self.args = args

    def acn(self):
        return "[]"


def acn_module(name, types):
    o = []
    for n, t in types:
        o.append("%s%s %s" % (n, getattr(t, "params", ""), acn_of(t)))
    return "%s DEFINITIONS ::= BEGIN\n%s\nEND\n" % (name, "\n".join(o))
