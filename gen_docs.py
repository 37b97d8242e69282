#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os
from proptext import T
import proptext
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
with open(H + "/properties.jsonl", "w") as f:
    for i in sorted(T):
        t = T[i]
        assert len(t["title"]) <= 80, i
        for x in t["files"] + [b for _, b in t["mechanism"]]:
            assert os.path.exists("/repo/" + x), (i, x)
        n = t["statement"].count(". ") + 1
        assert n <= 3, (i, n)
        f.write(json.dumps({"id": i, "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
            "anchors": {"files": t["files"], "state": t["state"], "mechanism": [{"name": a, "where": b} for a, b in t["mechanism"]], "observe_at": t["observe"], "hook_needed": None}}) + "\n")
na = getattr(proptext, "NA", [])
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none in /repo (the seams are in an overlay of the Go standard library that only the checks build with)", "enable": "go build -overlay (simgo/gen_overlay.py)", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": T[i]["level_note"].strip()} for i in sorted(PROPS)],
     "not_applicable": [{"property": i, "reason": r} for i, r in na],
     "notes": "check.py --replay FILE replays a violation; check.py --determinism ID N runs N seeds twice and compares the traces."}
for i in T:
    assert i in PROPS or i in [x for x, _ in na], i
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
