"""Driver: build harness + live sources with goto-cc, decide with CBMC, replay, write evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 8)
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")

RTL = ["asn1crt/asn1crt.c", "asn1crt/asn1crt_encoding.c", "asn1crt/asn1crt_encoding_uper.c",
       "asn1crt/asn1crt_encoding_acn.c"]
BERU = RTL[:2] + ["asn1crt/asn1crt_encoding_ber.c"]
XERU = RTL[:2] + ["asn1crt/asn1crt_encoding_xer.c"]

CHECK_FLAGS = ["--bounds-check", "--pointer-check", "--div-by-zero-check"]


# loops of the harness support code itself (never of the code under test)
HELPER_UW = {"nb_of.0": 66}


class Broken(Exception):
    """The check itself cannot give an answer."""


class H:
    """One harness = one function decided by the solver over all its inputs."""
    def __init__(self, name, src, func=None, units=RTL, defs=(), inc=(), unwind=10, timeout=200,
                 flags=None, extra=(), bounds="", nd=True, replay_defs=(), stubs=(), thorough=False,
                 san="address,bounds,shift-exponent", encoded=(), finding=None, maxunwind=None, solver=None, uw=None, hloop=130, trace=True, realreplay=False):
        self.realreplay = realreplay  # the stubs exist for the solver only
        self.trace = trace            # False: all inputs of a counterexample are 0
        self.hloop = hloop
        self.uw = dict(HELPER_UW, **(uw or {}))
        self.name, self.src, self.func = name, src, func or name
        self.units, self.defs, self.inc = list(units), list(defs) + (["NDEBUG"] if nd else []), list(inc)
        self.unwind, self.timeout = unwind, max(timeout, 500)
        self.flags = CHECK_FLAGS if flags is None else flags
        self.extra, self.bounds = list(extra), bounds
        self.thorough, self.san, self.encoded = thorough, san, list(encoded)
        self.finding = finding
        self.maxunwind = maxunwind or max(unwind * 2, unwind + 8)
        self.solver = solver
        self.stubs = list(stubs)      # functions of the code under test the harness replaces


class Runner:
    def __init__(self, prop):
        self.prop = prop
        os.makedirs(OUT, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="%s_" % prop, dir=OUT)
        self.lock = threading.Lock()
        self.objs = {}
        self.t0 = time.time()
        self.rows = []
        self.violations = []
        self.problems = []
        self.findings = []

    def path(self, p):
        return p if os.path.isabs(p) else (os.path.join(REPO, p) if os.path.exists(os.path.join(REPO, p)) else os.path.join(VERIF, p))

    def incs(self, h):
        return ["-I" + x for x in list(h.inc) + [os.path.join(REPO, "asn1crt"), os.path.join(VERIF, "harness")]]

    @staticmethod
    def defs_for(h, src):
        """Parameters of a harness are not defined in the code under test, only its configuration is."""
        if src == h.src:
            return list(h.defs)
        return [d for d in h.defs if d.startswith(("WORD_SIZE", "FP_WORD_SIZE", "NDEBUG", "ASN1SCC", "U_"))]

    def _obj(self, cc, src, h, tag):
        defs = self.defs_for(h, src)
        src = self.path(src)
        key = hashlib.sha1(repr((cc[0], src, sorted(defs), h.inc, tag)).encode()).hexdigest()[:16]
        with self.lock:
            ev = self.objs.get(key)
            mine = ev is None
            if mine:
                ev = self.objs[key] = [threading.Event(), None]
        out = os.path.join(self.tmp, key + ".o")
        if mine:
            r = subprocess.run(cc + ["-c", src, "-o", out] + ["-D" + d for d in defs] + self.incs(h),
                               capture_output=True, text=True)
            ev[1] = (r.returncode, r.stderr)
            ev[0].set()
        ev[0].wait()
        if ev[1][0] != 0:
            raise Broken("compilation of %s failed: %s" % (src, ev[1][1][-1500:]))
        return out

    def _strip(self, obj, stubs):
        out = obj[:-2] + "_" + hashlib.sha1(repr(stubs).encode()).hexdigest()[:8] + ".s.o"
        with self.lock:
            if not os.path.exists(out):
                r = subprocess.run(["goto-instrument"] + [x for s in stubs for x in ("--remove-function-body", s)] + [obj, out], capture_output=True, text=True)
                if r.returncode:
                    raise Broken("goto-instrument failed: " + (r.stdout + r.stderr)[-800:])
        return out

    def build_goto(self, h):
        objs = [self._obj(["goto-cc", "-DVH_CBMC"], s, h, "g") for s in [h.src] + h.units]
        if h.stubs:
            objs[1:] = [self._strip(o, h.stubs) for o in objs[1:]]
        key = hashlib.sha1(repr(objs).encode()).hexdigest()[:16]
        with self.lock:
            ev = self.objs.get("L" + key)
            mine = ev is None
            if mine:
                ev = self.objs["L" + key] = [threading.Event(), None]
        out = os.path.join(self.tmp, "L" + key + ".gb")
        if mine:
            r = subprocess.run(["goto-cc", "-o", out] + objs, capture_output=True, text=True)
            ev[1] = (r.returncode, r.stderr)
            ev[0].set()
        ev[0].wait()
        if ev[1][0] != 0:
            raise Broken("goto-cc link failed: %s" % ev[1][1][-1500:])
        return out

    def build_replay(self, h):
        cc = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-w", "-fsanitize=" + h.san, "-fno-sanitize-recover=all"]
        stubs = [] if h.realreplay else h.stubs
        if stubs:
            cc += ["-fPIC", "-fsemantic-interposition", "-fno-inline", "-fno-ipa-cp", "-fno-ipa-sra", "-fno-ipa-pure-const", "-fno-ipa-modref"]
        objs = [self._obj(cc, s, h, "r" + h.san + ("s" if stubs else "")) for s in h.units]
        if stubs:
            new = []
            for o in objs:
                q = os.path.join(self.tmp, "W_%s_%s" % (h.name, os.path.basename(o)))
                subprocess.run(["objcopy"] + ["--weaken-symbol=" + s for s in h.stubs] + [o, q], check=True)
                new.append(q)
            objs = new
        hobj = os.path.join(self.tmp, "R_%s.o" % h.name)
        r = subprocess.run(cc + ["-c", self.path(h.src), "-o", hobj, "-DVH_ENTRY=" + h.func] +
                           ["-D" + d for d in h.defs] + self.incs(h), capture_output=True, text=True)
        if r.returncode:
            raise Broken("replay compile failed: " + r.stderr[-1500:])
        out = os.path.join(self.tmp, "R_" + h.name)
        r = subprocess.run(cc + ["-o", out, hobj] + objs + ["-lm"], capture_output=True, text=True)
        if r.returncode:
            raise Broken("replay link failed: " + r.stderr[-1500:])
        return out

    def harness_loops(self, h, gb):
        """Loops of the harness itself get a bound of their own; loops of the code under test do not."""
        r = subprocess.run(["cbmc", gb, "--show-loops", "--json-ui"], capture_output=True, text=True)
        uw = {}
        try:
            for x in json.loads(r.stdout):
                for l in x.get("loops", []):
                    f = l.get("sourceLocation", {}).get("file", "")
                    if f.startswith(VERIF) and ("/out/" not in f or os.path.basename(f).startswith("vhx_")):
                        uw[l["name"]] = h.hloop
        except ValueError:
            pass
        uw.update(h.uw)
        return uw

    def cbmc(self, h, gb, unwind):
        if not hasattr(h, "allu"):
            h.allu = self.harness_loops(h, gb)
        cmd = ["cbmc", gb, "--function", h.func, "--no-standard-checks", "--unwinding-assertions",
               "--no-malloc-may-fail", "--object-bits", "12", "--drop-unused-functions",
               "--unwind", str(unwind), "--unwindset", ",".join("%s:%d" % kv for kv in h.allu.items()), "--json-ui"] + (["--trace"] if h.trace else []) + h.flags + h.extra
        if h.solver:
            cmd += h.solver
        t = time.time()
        fo = os.path.join(self.tmp, h.name + ".json")
        with open(fo, "w") as f:
            p = subprocess.Popen(["bash", "-c", 'ulimit -v %d; exec "$@"' % (14 << 20), "x"] + cmd, stdout=f,
                                 stderr=subprocess.DEVNULL)
            try:
                p.wait(timeout=h.timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                return None, time.time() - t
        try:
            data = json.load(open(fo))
        except Exception:
            data = None
        try:
            os.remove(fo)
        except OSError:
            pass
        return data, time.time() - t

    @staticmethod
    def inputs_of(trace):
        vals = []
        for st in trace or []:
            if st.get("stepType") == "assignment" and st.get("lhs", "") == "vh_in" and not st.get("hidden"):
                v = st.get("value", {})
                if "binary" in v and st.get("sourceLocation", {}).get("function", "").startswith("vin"):
                    vals.append(int(v["binary"], 2))
        return vals

    def replay(self, h, vals, tag):
        exe = self.build_replay(h)
        d = os.path.join(OUT, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        inp = os.path.join(d, "%s_%s.in" % (h.name, tag))
        with open(inp, "w") as f:
            f.write("".join("%x\n" % v for v in vals))
        env = dict(os.environ, VH_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
        try:
            r = subprocess.run([exe], capture_output=True, text=True, errors="replace", env=env, timeout=60)
            rc, o = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, o = "timeout", ""
        return rc, o, inp, exe

    def one(self, h):
        row = dict(harness=h.name, function=h.func, bounds=h.bounds, unwind=h.unwind, defs=h.defs,
                   encoded=h.encoded, queries=0, success=0, solver_s=0.0, witnesses=0, replays_ok=0)
        try:
            gb = self.build_goto(h)
            unwind = h.unwind
            while True:
                data, dt = self.cbmc(h, gb, unwind)
                row["solver_s"] += dt
                row["unwind"] = unwind
                if data is None:
                    raise Broken("%s: no answer within %ds (unwind %d)" % (h.name, h.timeout, unwind))
                res = None
                msgs = []
                for x in data:
                    if "result" in x:
                        res = x["result"]
                    if x.get("messageType") == "ERROR":
                        msgs.append(x.get("messageText", ""))
                if res is None:
                    raise Broken("%s: cbmc error %s" % (h.name, " ".join(msgs)[:500]))
                unw = [r for r in res if r["status"] == "FAILURE" and ".unwind." in r["property"] or
                       r["status"] == "FAILURE" and "recursion" in r["property"]]
                others = [r for r in res if r["status"] == "FAILURE" and r not in unw and
                          not r["description"].startswith("REACH:")]
                if unw and not others and unwind < h.maxunwind:
                    unwind = min(h.maxunwind, unwind * 2)
                    continue
                break
            row["queries"] = len(res)
            row["success"] = sum(r["status"] == "SUCCESS" for r in res)
            reach = [r for r in res if r["description"].startswith("REACH:")]
            row["functions"] = sorted({r.get("sourceLocation", {}).get("function", "?") for r in res})
            for r in res:
                if r["status"] == "ERROR" or (r["status"] == "UNKNOWN" and not others and not unw):
                    raise Broken("%s: %s %s" % (h.name, r["property"], r["status"]))
            notrep = []
            done = False
            for r in others:
                if done:
                    break
                vals = self.inputs_of(r.get("trace"))
                rc, o, inp, exe = self.replay(h, vals, "v%d" % len(notrep))
                bad = ("REPLAY-VIOLATION" in o or "AddressSanitizer" in o or "runtime error" in o or
                       rc == "timeout" or (isinstance(rc, int) and rc < 0))
                if bad:
                    done = True
                    self.report(h, r, vals, o, inp)
                else:
                    notrep.append("%s %s [replay rc=%s]" % (r["property"], r["description"], rc))
            if others and not done:
                raise Broken("%s: counterexample not reproduced by the real build: %s" % (h.name, "; ".join(notrep)[:800]))
            if done:
                row["violation"] = True
                return row
            if unw:
                # an infinite loop shows as an unwinding failure whose trace hangs the real code
                vals = self.inputs_of(unw[0].get("trace"))
                rc, o, inp, exe = self.replay(h, vals, "u")
                if rc == "timeout" or "AddressSanitizer" in o or "REPLAY-VIOLATION" in o or (isinstance(rc, int) and rc < 0):
                    self.report(h, unw[0], vals, o + " (does not terminate)", inp)
                    row["violation"] = True
                    return row
                raise Broken("%s: unwinding bound %d too small: %s" % (h.name, unwind, unw[0]["property"]))
            if not reach:
                raise Broken("%s: no reachability witness in harness" % h.name)
            # of the witnesses marked "any", one is enough
            opt = [r for r in reach if r["description"].startswith("REACH:any ")]
            if opt and any(r["status"] == "FAILURE" for r in opt):
                reach = [r for r in reach if r not in opt or r["status"] == "FAILURE"]
            for i, r in enumerate(reach):
                if r["status"] != "FAILURE":
                    raise Broken("%s: vacuous: '%s' unreachable" % (h.name, r["description"]))
                row["witnesses"] += 1
            # replay of (up to two) witnesses validates the encoding against the real build
            for i, r in enumerate(reach[:2]):
                vals = self.inputs_of(r.get("trace"))
                rc, o, inp, exe = self.replay(h, vals, "w%d" % i)
                if rc != 0 or ("REACHED " + r["description"][6:]) not in o:
                    raise Broken("%s: witness '%s' not reproduced by the real build: rc=%s %s" %
                                 (h.name, r["description"], rc, o[-400:]))
                row["replays_ok"] += 1
                row.setdefault("sample", dict(witness=r["description"][6:], inputs=["%x" % v for v in vals[:40]]))
                os.remove(inp)
        except Broken as e:
            row["problem"] = str(e)
            with self.lock:
                self.problems.append(str(e))
        return row

    def report(self, h, r, vals, out, inp):
        d = os.path.join(OUT, "replays", self.prop)
        script = os.path.join(d, h.name + ".sh")
        with open(script, "w") as f:
            f.write("#!/bin/sh\n# Replays the solver's counterexample for %s / %s against the real code in /repo\n"
                    "# property: %s  %s\n" % (self.prop, h.name, r["property"], r["description"]))
            f.write("set -e\nT=$(mktemp -d)\n")
            for k, u in enumerate([h.src] + h.units):
                f.write("gcc -c -g -O1 -w %s -fsanitize=%s -fno-sanitize-recover=all %s %s %s %s -o $T/%d.o\n"
                        % ("-fPIC -fsemantic-interposition -fno-inline" if h.stubs and not h.realreplay else "", h.san, " ".join("-D'%s'" % x for x in self.defs_for(h, u)), " ".join(self.incs(h)),
                           "-DVH_ENTRY=" + h.func if k == 0 else "", self.path(u), k))
                if k and h.stubs and not h.realreplay:
                    f.write("objcopy %s $T/%d.o\n" % (" ".join("--weaken-symbol=" + x for x in h.stubs), k))
            f.write("gcc -fsanitize=%s $T/*.o -lm -o $T/replay\n" % h.san)
            f.write("rc=0; VH_INPUT=%s ASAN_OPTIONS=detect_leaks=0 timeout 60 $T/replay || rc=$?\nrm -rf $T\nexit $rc\n" % inp)
        os.chmod(script, 0o755)
        with self.lock:
            self.violations.append(dict(harness=h.name, what=r["description"], where=r.get("sourceLocation", {}),
                                        replay=script, output=out[-1500:], inputs=["%x" % v for v in vals[:60]],
                                        finding=h.finding))

    def run(self, hs, assumptions=(), explanation="", extra_cov=None):
        hs = [h for h in hs if TIER == "thorough" or not h.thorough]
        only = os.environ.get("VH_ONLY")
        if only:
            hs = [h for h in hs if re.search(only, h.name)]
        hs = sorted(hs, key=lambda h: -h.timeout)
        with ThreadPoolExecutor(NCPU) as ex:
            for row in ex.map(self.one, hs):
                self.rows.append(row)
                if os.environ.get("VH_VERBOSE"):
                    print("%-40s %6.1fs q=%d %s" % (row["harness"], row["solver_s"], row["queries"],
                                                    row.get("problem", "VIOLATION" if row.get("violation") else "ok")), flush=True)
        return self.finish(assumptions, explanation, extra_cov)

    def finish(self, assumptions=(), explanation="", extra_cov=None):
        known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l:
                    k = json.loads(l)
                    if k.get("kind") == "finding" and k["property"] == self.prop:
                        known[k["harness"]] = k
        real = []
        for v in self.violations:
            if v["harness"] in known and v["finding"]:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[v["harness"]]["what"]))
                self.findings.append(v)
            else:
                real.append(v)
        cov = dict(
            explanation=explanation or "Each harness function is executed symbolically by CBMC over the functions compiled from /repo's "
            "working tree; the SAT back end decides every assertion for all inputs within the stated bounds.",
            states=len(self.rows), transitions=sum(r["queries"] for r in self.rows),
            states_meaning="harnesses decided in this run (each a symbolic run over all inputs within its bounds)",
            transitions_meaning="assertions (queries) put to the solver",
            discharged=sum(r["success"] for r in self.rows),
            traces_validated_against_impl=sum(r["replays_ok"] for r in self.rows),
            witnesses_reached=sum(r["witnesses"] for r in self.rows),
            solver_s=round(sum(r["solver_s"] for r in self.rows), 1),
            functions_encoded=sorted({f for r in self.rows for f in r.get("functions", [])}),
            harnesses=[{k: v for k, v in r.items() if k not in ("functions",)} for r in self.rows],
            samples=[r["sample"] | {"harness": r["harness"]} for r in self.rows if "sample" in r][:12],
            problems=self.problems, known_findings=[v["harness"] for v in self.findings])
        if extra_cov:
            cov.update(extra_cov)
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level="model_checking", coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  assumptions=list(assumptions), violations=len(real))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for v in real[:6]:
            w = v["where"]
            print("counterexample in harness %s: %s at %s:%s" % (v["harness"], v["what"], w.get("file"), w.get("line")))
            print("  " + v["output"].strip().replace("\n", "\n  ")[:1200])
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]), flush=True)
        for p in self.problems:
            print("INCONCLUSIVE property=%s %s" % (self.prop, p), flush=True)
        print("%s: %d harnesses, %d queries, %d discharged, %d violations, %d known findings, %d inconclusive, %.1fs" %
              (self.prop, len(self.rows), cov["transitions"], cov["discharged"], len(real), len(self.findings),
               len(self.problems), ev["wall_s"]))
        return 1 if real else (2 if self.problems else 0)
