#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from lib/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import props  # noqa: E402
import registry  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in props.P:
        f.write(json.dumps(d) + "\n")
checks, na = [], list(props.NOT_APPLICABLE)
skip = {i for i, _ in na}
for d, note, tech in props.P:
    i = d["id"]
    if i in skip:
        continue
    assert i in registry.CHECKS, i
    checks.append(dict(
        property=i, quick_cmd="python3 bin/check.py %s quick" % i,
        thorough_cmd="python3 bin/check.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=tech,
        level=registry.CHECKS[i].get("level", "exploration"),
        level_note="Generated-input search, no proof of absence. " + note))
assert not set(registry.CHECKS) - {d["id"] for d, _, _ in props.P}, "unlisted"
for d, _, _ in props.P:
    for p in d["anchors"]["files"]:
        if not os.path.exists(os.path.join(registry.REPO, p)):
            print("missing anchor", d["id"], p)
m = dict(version=1, setup_cmd="python3 bin/check.py --setup", checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in na],
         notes="No hooks: every check compiles /repo's sources itself, with "
               "harnesses that observe the public interfaces.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
