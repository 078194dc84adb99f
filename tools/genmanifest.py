#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of harnesses.
import json, re, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + "/harness/h/*.go"):
    have |= set(re.findall(r"^func (C\d\d)_", open(f).read(), re.M))
NA = {
 "C28": "the oracle is a database's SQL parser, which is not part of this codebase, not installed, and has no encoding here",
}
level_note = ("Every path of the real code (go/ssa of /repo's current tree) is executed symbolically and each assertion decided by the solver for all values "
 "within the bounds the evidence file lists (sizes, alphabet, number of fragments); counterexamples are replayed on the compiled code before they are reported, and models of "
 "sampled paths are replayed too. Trusted: go/ssa, the engine's models of runtime, reflect, fmt, sync and database/sql, z3.")
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": "SMT-based symbolic execution of the real code (go/ssa + z3)",
          "level": "model_checking", "level_note": level_note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "cd engine && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go build -o /dev/null .",
  "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
