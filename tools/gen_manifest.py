#!/usr/bin/env python3
"""MANIFEST.json from vq/checks.py: one entry per property with a check, the others under not_applicable."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "vq"))
import checks as T
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = []
na = []
for p in props:
    c = T.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=T.NOT_APPLICABLE.get(p["id"], "no check built yet")))
        continue
    out.append(dict(property=p["id"], quick_cmd="python3 vq/check.py %s --tier quick" % p["id"],
                    thorough_cmd="python3 vq/check.py %s --tier thorough" % p["id"], technique=c["technique"], level="exploration",
                    level_note=c["note"], evidence_file="evidence/%s.json" % p["id"]))
m = dict(version=1, setup_cmd="python3 vq/setup.py", hooks=dict(guard="none", enable="No hooks in /repo: the harness is linked against the unmodified sources (see DESIGN.md).", source_commits=[]),
         checks=out, not_applicable=na,
         notes="Every check rebuilds what it needs from /repo's working tree into the git-ignored /verif/build. See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
