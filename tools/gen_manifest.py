#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and what mbv.props decides."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mbv import props

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if props.claimed(i):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": props.technique(i), "level": props.level(i), "level_note": props.note(i)})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "k_verif", "enable": "RUSTFLAGS='--cfg k_verif' cargo build (in a target directory of its own, /verif/harness/target-hook)",
               "source_commits": ["366a448a1e11a238f74d305b5fee4119c2403667", "c1622cdf6923388eaafb39d7b2a988a8ac9169b8"]},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; harness/ replays their behaviours on the real crate and records traces of it that TLC checks against them. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
