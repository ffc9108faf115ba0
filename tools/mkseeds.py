"""Regenerates /verif/seeded/<id>/ from tools/seeds/*.py and confirms every seed in a scratch copy of /repo.

    python3 tools/mkseeds.py [ID-prefix ...]        (re)build and confirm
    python3 tools/mkseeds.py --check [ID ...]       also run the property's check with the patch applied to /repo (restored afterwards)

A seed: seed(id, prop, needs, breaks, demo, (file, old, new), ...). `demo` is python source using helpers from HEAD below; it must
end with an assertion failure (or any exception) on the patched tree.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
SRC = os.environ.get("SEED_REPO", "/repo")      # another copy of the repository, while a vcheck reads /repo

HEAD = '''import os, sys, tempfile, logging, atexit, shutil
logging.disable(logging.CRITICAL)
HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = tempfile.mkdtemp(prefix="demo_"); atexit.register(shutil.rmtree, SCRATCH, True)
REPO = os.getcwd(); sys.path.insert(0, REPO)
os.environ["HOME"] = SCRATCH; os.chdir(SCRATCH)
from syncanysql import ScriptEngine

def engine(**config):
    e = ScriptEngine(dict({"loglevel": "CRITICAL"}, **config)); e.setup(); return e

def put(e, name, rows, db="--"):
    e.get_database(db).insert(db + "." + name, ["id"], datas=[dict(r) for r in rows]).commit()

def rows(e, name, db="--"):
    return [dict(r) for r in e.get_database(db).query(db + "." + name, ["id"]).commit()]

def query(e, sql):
    e.execute("insert into `__q` " + sql)
    r = rows(e, "__q"); e.get_database("--").delete("--.__q", ["id"]).commit(); return r

'''
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, non-zero with the change; run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def seed(id, prop, needs, breaks, demo, *edits):
    SEEDS.append((id, prop, needs, breaks, demo, edits))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def own_lines(diff):
    """Removed lines that are not lines of the base commit."""
    base = sh("git -C " + SRC + " rev-list --max-parents=0 HEAD").stdout.split()[-1]
    out, path, n, blame = [], None, 0, {}
    for l in diff.splitlines():
        if l.startswith("--- "):
            path = l[6:]
            blame = sh("git -C " + SRC + " blame -l -s HEAD -- %s" % path).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-"):
            if not blame[n - 1].lstrip("^").startswith(base[:38]):
                out.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def main():
    args = sys.argv[1:]
    check = "--check" in args
    only = [a for a in args if not a.startswith("--")]
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "seeds", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})
    assert len(set(s[0] for s in SEEDS)) == len(SEEDS)
    for id, prop, needs, breaks, demo, edits in SEEDS:
        if only and not any(id.startswith(o) for o in only):
            continue
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            sh("cp -a " + SRC + " %s/repo" % tmp)
            r = tmp + "/repo"
            bad = None
            for path, old, new in edits:
                s = open(r + "/" + path).read()
                if s.count(old) != 1:
                    bad = "text occurs %d times in %s: %r" % (s.count(old), path, old[:80])
                    break
                open(r + "/" + path, "w").write(s.replace(old, new))
            if bad:
                print("BAD ", id, bad)
                continue
            d = os.path.join(VERIF, "seeded", id)
            os.makedirs(d, exist_ok=True)
            diff = sh("git -C %s diff" % r).stdout
            open(d + "/patch.diff", "w").write(diff)
            own = own_lines(diff)
            if own:
                print("     note: changes lines of our own commits (does not count):", own)
            open(d + "/demo.py", "w").write(HEAD + demo.strip() + "\n")
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
            a = sh("bash %s/demo.sh" % d, cwd=SRC)
            b = sh("bash %s/demo.sh" % d, cwd=r)
            t = sh("cd %s && HOME=/root LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q tests -p no:cacheprovider --timeout=120 2>&1 | tail -5" % (r, r))
            tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
            okk = a.returncode == 0 and b.returncode != 0 and "passed" in tests and "failed" not in tests and "error" not in tests
            print("ok  " if okk else "BAD ", id, "unchanged=%d patched=%d tests=%s" % (a.returncode, b.returncode, tests))
            if not okk:
                print(t.stdout[-600:], (a.stdout[-1500:] if a.returncode else "") + "\n--\n" + (b.stdout[-600:]))
                continue
            if check:
                try:
                    x = sh("git -C " + SRC + " apply %s/patch.diff" % d)
                    if x.returncode:
                        print("   does not apply", x.stdout)
                        continue
                    c = sh("python3 mc/run.py %s" % prop, cwd=VERIF)
                    print("   check: exit=%d %s" % (c.returncode, [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", prop))]))
                finally:
                    sh("git -C " + SRC + " checkout -- .")
        finally:
            shutil.rmtree(tmp, True)


main()
