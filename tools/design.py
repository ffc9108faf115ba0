"""DESIGN.md from tools/DESIGN.head.md, the properties, the checks' own BOUND/ASSUME, known_findings.txt and seeded/*/meta.json.
   PYTHONPATH=/repo:mc /opt/venv/bin/python tools/design.py"""
import glob
import importlib
import json
import os
import sys
import textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P   # noqa: E402
from runtimes import QUICK, THOROUGH, CAUGHT   # noqa: E402


def wrap(text, first="", rest=""):
    return textwrap.fill(" ".join(str(text).split()), 136, initial_indent=first, subsequent_indent=rest, break_long_words=False, break_on_hyphens=False)


known, fixed = {}, {}
for line in open(os.path.join(V, "known_findings.txt")):
    line = line.strip()
    if line.startswith("fixed: property="):
        pid, commit, what = line[len("fixed: property="):].split(" ", 2)
        fixed.setdefault(pid, []).append((commit, what))
    elif line.startswith("{"):
        k = json.loads(line)
        known.setdefault(k["property"], []).append((k["key"], k["what"]))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [open(os.path.join(V, "tools", "DESIGN.head.md")).read().rstrip(), "", "## 3. Properties and how each is decided", ""]
for p in P:
    mod = importlib.import_module("checks.%s" % p["id"].lower())
    bound = mod.BOUND if isinstance(mod.BOUND, dict) else {"quick": mod.BOUND, "thorough": mod.BOUND}
    out += ["### %s  %s" % (p["id"], p["title"]), "", wrap(p["statement"]), ""]
    doc = " ".join((mod.__doc__ or "").split("\n", 2)[-1].split())
    out.append(wrap("**Why tests cannot settle it.** " + p["why"], "* ", "  "))
    out.append(wrap("**What is explored.** " + (doc or p["over"]), "* ", "  "))
    out.append(wrap("**Technique / observation.** %s; observed: %s." % (p["technique"], "; ".join(p["observe"])), "* ", "  "))
    out.append(wrap("**Bound, quick** (%s): %s." % (QUICK.get(p["id"], "?"), bound["quick"]), "* ", "  "))
    out.append(wrap("**Bound, thorough** (%s): %s." % (THOROUGH.get(p["id"], "not timed"), bound["thorough"]), "* ", "  "))
    out.append(wrap("**Strength.** Evidence level %s. %s" % (p["level"], p["note"]), "* ", "  "))
    for a in mod.ASSUME:
        out.append(wrap("assumed / not claimed: " + a, "  * ", "    "))
    for c, w in fixed.get(p["id"], []):
        out.append(wrap("defect repaired in /repo (%s): %s" % (c, w), "  * ", "    "))
    for k, w in known.get(p["id"], []):
        out.append(wrap("known finding `%s`: %s" % (k, w), "  * ", "    "))
    for s, m in seeds.get(p["id"], []):
        out.append(wrap("planted bug `%s` (%s): %s" % (s, CAUGHT.get(s, "caught by %s" % p["id"]), m["what_it_breaks"]), "  * ", "    "))
    out.append("")
out.append(open(os.path.join(V, "tools", "DESIGN.tail.md")).read().rstrip())
with open(os.path.join(V, "DESIGN.md"), "w") as fp:
    fp.write("\n".join(out) + "\n")
