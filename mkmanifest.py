#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os
from specs import PROPS, DEFAULTS, NOT_APPLICABLE

os.chdir(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    s = dict(DEFAULTS, **PROPS[i])
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": s["technique"],
        "level": "model_checking",
        "level_note": "Bounded: every input within the bounds is covered, nothing outside them. Bounds: %s. Outside: %s.%s"
                      % (s["bounds"], s["outside"] or "-", " Assumes: " + "; ".join(s["assumptions"]) + "."
                         if s["assumptions"] else ""),
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")} for i in ids if i not in PROPS]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {
        "guard": "cfg(verif_hooks)",
        "enable": "RUSTFLAGS='--cfg verif_hooks' (set by check.py for the properties which need private items)",
        "source_commits": ["9337284", "9fc39ee", "c54abb8", "d9c0930"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "check.py rebuilds the harness crate with /repo as path dependency, decides its harnesses with Kani/CBMC "
             "and replays counterexamples natively. See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
