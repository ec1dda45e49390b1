"""Checks on generated code: build the compiler, generate, decide each type."""
import os, shutil, tempfile
from vlib.core import H, Runner, OUT, VERIF, Broken
from vlib import gen, schema

RT = "asn1crt.c asn1crt_encoding.c asn1crt_encoding_uper.c asn1crt_encoding_acn.c asn1crt_encoding_xer.c asn1crt_encoding_ber.c".split()


import re
STUBS = re.findall(r"^(?:void|flag) (\w+)\(", open(os.path.join(VERIF, "harness", "bits.h")).read(), re.M)
STUBS_ACN = re.findall(r"^(?:void|flag) (\w+)\(", open(os.path.join(VERIF, "harness", "bits_acn.h")).read(), re.M)
FS = ["--max-field-sensitivity-array-size", "3000"]


class Gen:
    def __init__(self, prop):
        self.prop = prop
        self.run = Runner(prop)
        self.dir = os.path.join(OUT, "gen", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.secs = 0.0
        dll = os.environ.get("VH_DLL")
        if not dll:
            bd = tempfile.mkdtemp(prefix="cc_", dir=OUT)
            try:
                d, self.secs = gen.build(bd)
                # keep only the binaries
                shutil.move(os.path.dirname(d), os.path.join(self.run.tmp, "cc"))
            finally:
                shutil.rmtree(bd, ignore_errors=True)
            dll = os.path.join(self.run.tmp, "cc", "asn1scc.dll")
        self.dll = dll
        self.hs = []

    def generate(self, tag, texts, opts):
        """texts: {file name: content}; returns the output folder"""
        out = os.path.join(self.dir, tag)
        os.makedirs(out)
        fs = []
        for n, t in texts.items():
            p = os.path.join(out, n)
            open(p, "w").write(t)
            fs.append(p)
        rc, msg = gen.run(self.dll, fs, out, opts)
        if rc:
            raise Broken("the compiler refuses the battery %s: %s" % (tag, msg[-600:]))
        # under the solver the alternatives of a choice lie side by side: only the chosen one carries information
        for f in os.listdir(out):
            if f.endswith(".h") and not f.startswith("asn1crt"):
                q = os.path.join(out, f)
                x = open(q).read()
                y = re.sub(r"^typedef union\b", "typedef VH_UNION", x, flags=re.M)
                if y != x:
                    open(q, "w").write("#ifdef VH_CBMC\n#define VH_UNION struct\n#else\n#define VH_UNION union\n#endif\n" + y)
        return out

    def units(self, out, main):
        return [os.path.join(out, f) for f in [main] + RT if os.path.exists(os.path.join(out, f))]

    def add(self, out, main, name, text, func="h", **kw):
        p = os.path.join(out, "vhx_%s.c" % name)
        open(p, "w").write(text)
        kw.setdefault("stubs", STUBS)
        kw.setdefault("realreplay", True)
        kw.setdefault("extra", FS)
        kw.setdefault("hloop", 66)
        kw.setdefault("unwind", 20)
        kw.setdefault("maxunwind", 80)
        self.hs.append(H(name, p, func=func, units=self.units(out, main), inc=[out], **kw))

    def finish(self, assumptions=(), cov=None):
        c = dict(compiler_build_s=round(self.secs, 1))
        c.update(cov or {})
        return self.run.run(self.hs, assumptions=list(assumptions), extra_cov=c)
