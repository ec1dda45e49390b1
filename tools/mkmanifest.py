#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand). A property is claimed when checks/cNN.py exists and it is not in NA."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C18": "No check was built: every primitive would have to be run twice (one buffer, and a small buffer with a symbolic refill history) with user-supplied push and fetch functions between octets. One defect met on the way is repaired (e879287).",
 "C19": "No check was built: the XER text runtime scans and formats strings (strstr, sprintf of numbers and doubles, which have no body to encode) over work areas of 1 KB and more, so that the loops need unwindings in the thousands.",
 "C20": "No check was built: the tokenizer's loops run over work areas of 1 KB; bounds small enough for unwinding cannot reach the overflow conditions the property is about.",
 "C21": "No check was built. BER lengths are patched after the content is written; an encoding of that within the bounds of the others is possible but was not reached in the time.",
 "C22": "No check was built in the time; defects seen while reading are listed in DESIGN.md.",
 "C26": "The committed generated codecs are frozen output: deciding every value of them needs a value generator per type, which exists only for the battery (C30, C31, C36 decide the current templates instead).",
 "C32": "Generated XER codecs consist of calls to the XER runtime, which cannot be encoded within reach (see C19).",
 "C38": "No check was built: it needs the battery generated and decided once per option, in addition to the compiler build, within the time of one check. Word size is covered by C01-C17; the numbering under fast enumeration lookup is repaired (see C35).",
 "C50": "No symbolic executor for Ada is installed: GNATprove, CBMC's gnat2goto and LLVM's GNAT are absent, and GCC's dumps are not accepted by any tool here.",
 "C51": "As C50: the Ada side cannot be encoded.",
 "C52": "As C50: the Ada side cannot be encoded.",
 "C60": "The Scala runtime and generator need a Scala compiler (sbt/scalac), which is not installed, so the code can neither be built nor turned into an encodable intermediate form here.",
 "C61": "The interface control documents are HTML text assembled by F# code on .NET; no symbolic executor for .NET is available and comparing prose tables with encodings is not expressible as a solver query over real code.",
 "C62": "Acceptance ranges over all specifications; the F# front end would have to be executed symbolically over input grammars, and no symbolic executor for .NET is available. Sampling grammars would not be the technique studied.",
}
NOTE = {}
exec(open(os.path.join(R, "tools", "notes.py")).read()) if os.path.exists(os.path.join(R, "tools", "notes.py")) else None
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique=NOTE.get(i, ("",))[0] or "symbolic execution of the real C code with CBMC (SAT), counterexamples replayed on the real build",
            level="model_checking",
            level_note=(NOTE.get(i, ("", ""))[1] or "Decided by the solver for all inputs within the bounds stated in the evidence file (buffer sizes, array lengths, bit offsets); nothing is claimed beyond them. Trusted: CBMC's C semantics, goto-cc, gcc/ASan for replay.")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 -c 'import json; json.load(open(\"MANIFEST.json\"))'", hooks=dict(guard="VERIF_HOOKS", enable="no hooks: the checks use /repo's sources as they are", source_commits=[]),
    checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
