"""Shared machinery: exhaustive exploration driver, evidence, known findings, replay artefacts.

Every check module mc/checks/<id>.py defines

    LEVEL   one of the evidence levels
    ASSUME  list of assumption strings
    BOUND   one line: what is enumerated
    units(tier) -> list of picklable work units (together they ARE the bounded space)
    explore(unit, rec)  runs one unit completely, reporting into rec (a Recorder)

A unit is explored in a forked worker; nothing is sampled.
"""
import collections
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("MC_SCRATCH", "/tmp")
NPROC = int(os.environ.get("MC_PROCS", "0") or 0) or min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 20          # seconds before one single execution counts as "does not terminate"
STOP_AFTER = 240            # seconds after which a run that has found a violation stops
MAX_VIOLATIONS = int(os.environ.get("MC_MAXV", "25"))        # per unit, then the unit stops early (it is a failing run anyway)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("execution did not finish within %ss" % CASE_TIMEOUT)


class StopUnit(BaseException):
    pass


class Recorder(object):
    """Counts measured while exploring one unit."""

    def __init__(self, prop, known=()):
        self.prop = prop
        self.known = known
        self.evaluations = 0          # real executions compared with the oracle
        self.states = set()           # canonical state hashes
        self.transitions = 0
        self.outcomes = set()         # distinct observed results (vacuity indicator)
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.deadline = None

    def state(self, *key):
        h = digest(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def ok(self, outcome=None, sample=None):
        self.evaluations += 1
        if outcome is not None:
            self.outcomes.add(digest(outcome))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def bad(self, key, what, case):
        """key: identifies the specific failing input/history (matched against known findings)."""
        self.evaluations += 1
        if key in self.known:
            self.known_hits[key] = what
            return
        self.violations.append({"key": key, "what": what, "case": case})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopUnit()

    def expect(self, key, expected, got, case, sample=None, outcome=None):
        if expected == got and type_eq(expected, got):
            self.ok(got if outcome is None else outcome, sample)
            return True
        self.bad(key, "expected %s, got %s" % (short(expected), short(got)), case)
        return False


def type_eq(a, b):
    """bool is not int; int vs float may be equal (numeric value is what counts)."""
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return all(type_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return all(type_eq(a[k], b[k]) for k in a if k in b)
    return True


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "replace"), digest_size=8).digest()


class watchdog(object):
    """with watchdog(): real code   -- turns a hang into an exception in this worker's main thread."""

    def __init__(self, seconds=None):
        self.seconds = seconds or CASE_TIMEOUT

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            entry = json.loads(line)
            if entry.get("property") == prop and entry.get("status") == "known":
                known[entry["key"]] = entry["what"]
    return known


_MOD = None
_PROP = None
_KNOWN = None


def _worker(task):
    index, unit = task
    rec = Recorder(_PROP, _KNOWN)
    t = time.time()
    try:
        try:
            _MOD.explore(unit, rec)
        except StopUnit:
            pass
    except CaseTimeout as e:
        rec.violations.append({"key": "hang", "what": "unit %s: %s" % (short(unit), e), "case": {"unit": unit}})
    except MemoryError:
        rec.violations.append({"key": "memory", "what": "unit %s exhausted memory" % short(unit), "case": {"unit": unit}})
    except BaseException as e:
        rec.violations.append({"key": "crash", "what": "unit %s: %s: %s\n%s" % (
            short(unit), e.__class__.__name__, e, traceback.format_exc()[-1500:]), "case": {"unit": unit}})
    return (index, rec.evaluations, rec.states, rec.transitions, rec.outcomes, rec.counts, rec.samples,
            rec.violations, rec.known_hits, time.time() - t)


def _init_worker():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)


def run(prop, mod, tier, seed, only_unit=None):
    global _MOD, _PROP, _KNOWN
    t0 = time.time()
    _MOD, _PROP, _KNOWN = mod, prop, load_known(prop)
    units = [only_unit] if only_unit is not None else list(mod.units(tier))
    total = Recorder(prop, _KNOWN)
    tasks = list(enumerate(units))
    results = []
    nproc = max(1, min(NPROC, len(tasks)))
    ctx = multiprocessing.get_context("fork")
    lost = None
    with ctx.Pool(nproc, initializer=_init_worker) as pool:
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        for _ in range(len(tasks)):
            try:
                results.append(it.next(timeout=getattr(mod, "UNIT_TIMEOUT", 420)))
            except multiprocessing.TimeoutError:
                lost = "a worker neither finished nor answered (deadlock or killed process)"
                break
            if results[-1][7] and time.time() - t0 > STOP_AFTER:
                break          # a failing run: report what was found instead of finishing the space
        pool.terminate()
    results.sort(key=lambda r: r[0])
    slow = []
    for index, ev, st, tr, oc, cn, sa, vi, kh, secs in results:
        total.evaluations += ev
        total.states |= st
        total.transitions += tr
        total.outcomes |= oc
        total.counts.update(cn)
        if len(total.samples) < 4 and sa:
            total.samples.append(sa[0])
        total.violations.extend(vi)
        total.known_hits.update(kh)
        slow.append((secs, short(units[index], 80)))
    if lost:
        done = set(r[0] for r in results)
        missing = [units[i] for i, _ in tasks if i not in done]
        total.violations.append({"key": "hang", "what": lost + "; unfinished units: " + short(missing),
                                 "case": {"unit": missing[0] if missing else None}})
    wall = time.time() - t0
    level = mod.LEVEL
    cov = {"exhaustive": not total.violations and lost is None, "bound": mod.BOUND if isinstance(mod.BOUND, str) else mod.BOUND[tier],
           "units": len(units), "distinct_outcomes": len(total.outcomes), "samples": total.samples or ["(none)"]}
    if level == "model_checking":
        cov.update({"states": len(total.states), "transitions": total.transitions,
                    "traces_validated_against_impl": total.evaluations})
    else:
        cov.update({"evaluations": total.evaluations, "distinct_nontrivial": len(total.states),
                    "rule": getattr(mod, "RULE", mod.BOUND if isinstance(mod.BOUND, str) else mod.BOUND[tier])})
    for k, v in sorted(total.counts.items()):
        cov["n_" + k] = v
    if only_unit is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                       "assumptions": list(mod.ASSUME), "wall_s": round(wall, 3),
                       "violations": len(total.violations)}, fp, indent=1, default=repr, sort_keys=True)
    for key, what in sorted(total.known_hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, _KNOWN[key]))
    if os.environ.get("MC_TIMES"):
        for s in sorted(slow, reverse=True)[:12]:
            print("  %.1fs %s" % s)
    print("%s %s: units=%d evaluations=%d states=%d transitions=%d distinct_outcomes=%d violations=%d wall=%.1fs" % (
        prop, tier, len(units), total.evaluations, len(total.states), total.transitions, len(total.outcomes),
        len(total.violations), wall))
    if total.violations and os.environ.get("MC_GROUP"):
        grp = {}
        for v in sorted(total.violations, key=lambda v: len(repr(v["case"]))):
            grp.setdefault(v["key"].split(" | ")[0], []).append(v)
        for k, vs in grp.items():
            print("## %d x %s\n     %s\n     %s" % (len(vs), k, vs[0]["key"][:300], vs[0]["what"][:700]))
    if total.violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        total.violations.sort(key=lambda v: len(repr(v["case"])))
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as fp:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "how": "python3 /verif/mc/run.py %s --replay %s" % (prop, path),
                       "violations": total.violations[:50]}, fp, indent=1, default=repr)
        for v in total.violations[:5]:
            print("  %s: %s" % (v["key"], v["what"]))
            print("    case: %s" % short(v["case"], 1200))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.path.insert(0, os.path.join(VERIF, "mc"))
    try:
        mod = importlib.import_module("checks." + prop.lower())
        if "--replay" in argv:
            data = json.load(open(argv[argv.index("--replay") + 1]))
            for v in data["violations"][:10]:
                print(v["key"], v["what"], json.dumps(v["case"])[:3000])
                if hasattr(mod, "replay"):
                    print("replayed ->", mod.replay(v["case"]))
            rc = 0
        else:
            rc = run(prop, mod, tier, seed)
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        # the code under test cannot even be loaded/started: the property does not hold on this tree
        traceback.print_exc()
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as fp:
            json.dump({"property": prop, "violations": [{"key": "startup", "what": repr(e), "case": traceback.format_exc()}]}, fp)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
