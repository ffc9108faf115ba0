import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as fp:
    for p in P + [n["prop"] for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 -m compileall -q mc",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 /verif/mc/run.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 /verif/mc/run.py %s" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
        "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
        "notes": "All checks run the real code imported from /repo's working tree; nothing is instrumented in /repo (no hooks). "
                 "Known findings: known_findings.txt.",
    }, fp, indent=1)
    fp.write("\n")
