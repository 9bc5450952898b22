#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of harnesses."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for f in glob.glob(V + "/harness/h/*.go"):
    have |= set(re.findall(r"(?m)^func (C\d\d)_\w+\(\) \{", open(f).read()))
NA = {
 "C30": "a statement about the Go toolchain and several machines' builds: there is no function of this repository to execute symbolically, and only one machine and platform exist here",
 "C31": "depends on GnuPG, a foreign C program that is not installed and not part of this repository; the formats it needs are decided by C13 to C20",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the repository's Go SSA with SMT (z3, cvc5) deciding every branch and assertion; counterexamples replayed on the native code",
            level="model_checking",
            level_note="Holds for all inputs within the bounds listed in DESIGN.md and the evidence file (string lengths, option combinations, steps); cryptographic primitives are uninterpreted functions with their algebraic contracts; the engine, go/ssa and the solvers are trusted, and sampled paths are cross-checked against the natively compiled code."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check for this property is not finished yet")))
m = dict(version=1, setup_cmd="bash check.sh setup", checks=checks, not_applicable=na,
         notes="No hooks: the harness is compiled against /repo through a build overlay. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
