"""C19  A path in place of a table names exactly that file.

Every pair of paths (of the bound) in every position of a query, every spelling of a path, and every history of reads, writes, copies, deletes and changes from outside is executed on real files in a
scratch directory; the rows read and the contents of every file are compared with a model of the file system.
"""
import csv
import io
import itertools
import json
import os
import shutil
import tempfile
from urllib.parse import quote

from eng import Err
from core import watchdog

LEVEL = "model_checking"
DIRS = ["", "a/b", "a_b", "a b", "a-b", "é", "../s", "a.b", "A_B"]
NAMES = ["t.json", "t.csv", "t.txt", "u.json", "t t.csv", "t-x.json", "t.x.json", "t.xlsx", "t.log", "n#1.json", "p%20q.json", "q&r=1.csv", "s;'.json"]
BOUND = {
    "quick": "every path of 9 directories (siblings that differ in one separator, space or letter's case; parent; nested; not ASCII) x 13 file names (json, csv, txt, xlsx, log; space, dash, dot, #, %, &, =, ;, ') x 9 spellings (relative, ./, "
             "through .., absolute, file://, file:// with %20, through a variable, an alias); every ordered pair of 22 paths x {join, union, IN, scalar subquery, derived tables, copy}, alone and as two "
             "statements; every history of <=3 of 20 operations over 3 sets of 3 files (those of 3 over one set each), in one script and one script per operation; every separator for text files and pairs of them",
    "thorough": "as quick, every ordered pair of 46 paths, histories of <=4"}
ASSUME = ["rows of files hold text only (csv knows no types)", "files are not changed from outside while a script runs"]


class Files(object):
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="mc19-", dir=os.environ.get("MC_SCRATCH") or None)
        self.cwd = os.getcwd()
        self.w = os.path.join(self.base, "w")
        self.n = 0

    def reset(self, content, dirs=DIRS):
        """content: path relative to the working directory -> rows"""
        shutil.rmtree(self.w, ignore_errors=True)
        self.c = os.path.join(self.w, "c")
        os.makedirs(self.c)
        os.chdir(self.c)
        for d in dirs:
            os.makedirs(os.path.join(self.c, d), exist_ok=True)
        for p, rows in content.items():
            self.write(p, rows)

    def write(self, p, rows):
        if p.endswith(".xlsx"):
            import openpyxl
            book = openpyxl.Workbook()
            book.remove(book.active)
            sheet = book.create_sheet("Sheet1")
            for i, r in enumerate([["id", "v"]] + [[x["id"], x["v"]] for x in rows]):
                for j, x in enumerate(r):
                    sheet.cell(i + 1, j + 1, x)
            book.save(p)
            return
        with open(p, "w", encoding="utf-8", newline="") as f:
            if p.endswith(".json"):
                json.dump(rows, f)
            elif p.endswith(".csv"):
                out = csv.DictWriter(f, ["id", "v"])
                out.writeheader()
                out.writerows(rows)
            else:
                f.write("".join("%s,%s\n" % (r["id"], r["v"]) for r in rows))

    def read(self, p):
        try:
            if p.endswith(".xlsx"):
                import openpyxl
                sheet = openpyxl.load_workbook(p).worksheets[0]
                rows = [[c.value for c in r] for r in sheet.rows]
                return [tuple(r) for r in rows[1:]] if rows else []
            text = open(p, encoding="utf-8", newline="").read()
        except (IOError, OSError):
            return None
        try:
            if p.endswith(".json"):
                return [(str(r.get("id")), str(r.get("v"))) for r in json.loads(text)]
            if p.endswith(".csv"):
                return [(r.get("id"), r.get("v")) for r in csv.DictReader(io.StringIO(text))]
        except ValueError:
            return ("not readable", text[:80])
        return [tuple(x.split(",")) for x in text.splitlines()]

    def snapshot(self):
        out = {}
        for d, _, names in os.walk(self.w):
            for n in names:
                p = os.path.join(d, n)
                out[os.path.normpath(os.path.relpath(p, self.c))] = self.read(p)
        return out

    def close(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.base, ignore_errors=True)


def rows(tag, n=2):
    return [{"id": str(i + 1), "v": "%s%d" % (tag, i + 1)} for i in range(n)]


def tup(rs):
    return [(r["id"], r["v"]) for r in rs]


def engine():
    from syncanysql import ScriptEngine
    return ScriptEngine({"loglevel": "CRITICAL"})


def attempt(f):
    try:
        with watchdog():
            return f()
    except Exception as exc:
        return Err(exc)


def kind(p):
    return os.path.splitext(p)[1][1:]


def cols(p, a=""):
    """How the two values of a row of the file are selected."""
    a = a + "." if a else ""
    if kind(p) in ("txt", "log"):
        return a + "seg0", a + "seg1"
    return a + "id", a + "v"


def table(p, how="plain"):
    """The ways of writing the path; None where one does not apply."""
    if kind(p) in ("txt", "log") and not how.startswith("file"):
        if how != "plain":
            return None
        how = "file"
    text = kind(p) in ("txt", "log")
    absolute = os.path.abspath(p)
    if how == "plain":
        return p
    if how == "dot":
        return "./" + p
    if how == "up":
        return "a_b/../" + p
    if how == "abs":
        return absolute
    if how == "file":
        return None if "%" in p else "file://" + absolute + ("?sep=," if text else "")
    if how == "file-rel":
        return None if "%" in p else "file://" + p + ("?sep=," if text else "")
    if how == "file-quoted":
        return "file://" + quote(absolute) + ("?sep=%2C" if text else "")
    if how == "file-plus":
        return None if "%" in p else "FILE://" + absolute.replace(" ", "+") + ("?sep=," if text else "")
    return None


HOWS = ["plain", "dot", "up", "abs", "file", "file-rel", "file-quoted", "file-plus", "variable"]
ALL = [os.path.join(d, n) for d in DIRS for n in NAMES]
PAIRS = ([os.path.join(d, n) for d in ("", "a/b", "a_b", "a b", "é") for n in ("t.json", "t.csv")] + ["a-b/t.json", "A_B/t.json", "../s/t.json", "a.b/t.csv", "u.json", "t-x.json", "t t.csv", "a_b/t t.csv", "t.txt",
         "a/b/t.txt", "t.log", "t.xlsx"])
MORE = PAIRS + [p for p in ALL if p not in PAIRS and kind(p) != "xlsx"][:24]
POSITIONS = ("join", "union", "in", "scalar", "derived", "copy", "statements")


def units(tier):
    out = [("spelling", i) for i in range(len(DIRS))]
    ps = PAIRS if tier == "quick" else MORE
    out += [("pair", p) for p in ps]
    out += [("history", (s, i)) for s in range(len(SETS)) for i in range(len(OPS))]
    out += [("text", None), ("sheets", None)]
    return [u + (tier,) for u in out]


def explore(unit, rec):
    what, arg, tier = unit
    f = Files()
    try:
        {"spelling": spelling, "pair": pair, "history": history, "text": text_files, "sheets": sheets}[what](f, arg, tier, rec)
    finally:
        f.close()


def collect(e, name="o"):
    got = [tuple(r.values()) for r in e.get_memory_datas(name)]
    return got


def spelling(f, i, tier, rec):
    """Every spelling of the path reads and writes that file and no other."""
    d = DIRS[i]
    content = {p: rows("f%d." % k, 2) for k, p in enumerate(ALL)}
    f.reset(content)
    before = f.snapshot()
    e = engine()
    n = 0
    for name in NAMES:
        p = os.path.join(d, name)
        a, b = cols(p)
        for how in HOWS:
            if not rec.state(p, how):
                continue
            if how == "variable":
                t = table(p)
                e.execute('set @p = "%s"' % t)
                t = "@p"
            else:
                t = table(p, how)
                if t is None:
                    continue
                t = "`%s`" % t
            n += 1

            def run():
                e.execute("insert into `o%d` select %s as id, %s as v from %s" % (n, a, b, t))
                return sorted(tuple(str(x).strip() for x in r) for r in collect(e, "o%d" % n))
            rec.transitions += 1
            rec.expect("read %s as %s" % (p, how), sorted(tup(content[p])), attempt(run), {"path": p, "written": t}, outcome=kind(p), sample={"path": p, "written": t} if n % 17 == 1 else None)

            def aliased():
                e.execute("insert into `x%d` select f.%s as id, f.%s as v from %s f where f.%s = '2'" % (n, a, b, t, a))
                return collect(e, "x%d" % n)
            rec.transitions += 1
            rec.expect("read %s as %s, alias" % (p, how), [tup(content[p])[1]], [tuple(x.strip() for x in r) for r in got] if isinstance(got := attempt(aliased), list) else got,
                       {"path": p, "written": t}, outcome=kind(p))
            if kind(p) in ("txt", "log"):
                continue

            def write():
                e.execute("insert into %s select '%d' as id, 'w' as v" % (t, n + 10))
                after = f.snapshot()
                return {q: after[q] for q in after if after[q] != before.get(q)}
            rec.transitions += 1
            exp = {os.path.normpath(p): before[os.path.normpath(p)] + [(str(n + 10), "w")]}
            rec.expect("write %s as %s" % (p, how), exp, attempt(write), {"path": p, "written": t}, outcome=kind(p))
            f.write(p, content[p])
            if f.snapshot() != before:
                f.reset(content)
    e.close()


def join_query(p, q):
    a, b = cols(p, "x")
    c, d = cols(q, "y")
    return a, b, c, d


def pair(f, p, tier, rec):
    ps = PAIRS if tier == "quick" else MORE
    content = {x: rows("f%d." % k, 2) for k, x in enumerate(ps)}
    f.reset(content)
    before = f.snapshot()
    e = engine()
    n = 0
    for q in ps:
        for position in POSITIONS:
            if not rec.state(p, q, position):
                continue
            P, Q = content[p], content[q]
            tp, tq = "`%s`" % table(p), "`%s`" % table(q)
            a, b = cols(p, "x")
            c, d = cols(q, "y")
            n += 1
            o = "o%d" % n
            exp_files = before
            if position == "join":
                # y's second column as it is read
                sql = "insert into `%s` select %s as i, %s as a, %s as b from %s x join %s y on %s = %s" % (o, a, b, d, tp, tq, a, c)
                exp = [(r["id"], r["v"], s["v"]) for r, s in zip(P, Q)]
            elif position == "union":
                a1, b1 = cols(p)
                c1, d1 = cols(q)
                sql = "insert into `%s` select %s as i, %s as v from %s union all select %s as i, %s as v from %s" % (o, a1, b1, tp, c1, d1, tq)
                exp = tup(P) + tup(Q)
            elif position == "in":
                sql = "insert into `%s` select %s as i, %s as v from %s x where %s in (select %s from %s y where y.%s = '2')" % (o, a, b, tp, a, cols(q)[0], tq, cols(q)[0])
                exp = [tup(P)[1]]
            elif position == "scalar":
                sql = "insert into `%s` select %s as i, %s as v, (select max(%s) from %s y where %s = %s) as m from %s x" % (o, a, b, d, tq, c, a, tp)
                exp = [(r["id"], r["v"], s["v"]) for r, s in zip(P, Q)]
            elif position == "derived":
                sql = "insert into `%s` select x.i as i, x.v as v, y.w as w from (select %s as i, %s as v from %s) x join (select %s as j, %s as w from %s) y on x.i = y.j" % ((o,) + cols(p) + (tp,) + cols(q) + (tq,))
                exp = [(r["id"], r["v"], s["v"]) for r, s in zip(P, Q)]
            elif position == "copy":
                if kind(q) in ("txt", "log"):
                    continue
                sql = "insert into %s select '7' as id, %s as v from %s x where %s = '2'" % (tq, b, tp, a)
                exp = []
                exp_files = dict(before)
                exp_files[os.path.normpath(q)] = tup(Q) + [("7", P[1]["v"])]
            else:
                a1, b1 = cols(p)
                c1, d1 = cols(q)
                sql = "insert into `%s` select %s as i, %s as v from %s; insert into `%s` select concat('q', %s) as i, %s as v from %s" % (o, a1, b1, tp, o, c1, d1, tq)
                exp = tup(P) + [("q" + r["id"], r["v"]) for r in Q]

            def run():
                e.execute(sql)
                return sorted(tuple(str(x).strip() for x in r) for r in collect(e, o)), f.snapshot()
            rec.transitions += 1
            rec.expect("%s %s, %s" % (position, p, q), (sorted(exp), exp_files), attempt(run), {"sql": sql}, outcome=(position, kind(p), kind(q)), sample={"sql": sql, "rows": exp} if n % 37 == 1 else None)
            if f.snapshot() != before:
                f.reset(content)
    e.close()


# ---------------------------------------------------------------------------------------------- histories
SETS = [("t.json", "t.csv", "a_b/t.json"), ("a/b/t.csv", "a_b/t.csv", "a b/t.csv"), ("é/t.json", "u.json", "t.xlsx")]
# (name, files used, sql or None, effect on the model); A, B, C are the three files; X the rows of each
OPS = []


def op(name, sql, effect):
    OPS.append((name, sql, effect))


def appended(m, k, new):
    m[k] = m[k] + new


def into(src, dst):
    return lambda m, o: appended(m, dst, [("%s%s" % (i, dst), v) for i, v in m[src]])


for _f in "ABC":
    op("read " + _f, "insert into `o` select id, v from {%s}" % _f, lambda m, o, k=_f: o.extend(m[k]))
for _f in "ABC":
    op("write " + _f, "insert into {%s} select '{n}' as id, 'n' as v" % _f, lambda m, o, k=_f: appended(m, k, [("{n}", "n")]))
for _f, _g in (("A", "B"), ("B", "C"), ("C", "A"), ("A", "A")):
    op("copy %s %s" % (_f, _g), "insert into {%s} select concat(id, '%s') as id, v from {%s}" % (_g, _g, _f), into(_f, _g))
for _f in "AB":
    op("delete " + _f, "delete from {%s} where id = '1'" % _f, lambda m, o, k=_f: m.__setitem__(k, [r for r in m[k] if r[0] != "1"]))
for _f in "AB":
    op("outside " + _f, None, lambda m, o, k=_f: m.__setitem__(k, [("x", "y")]))
op("join A B", "insert into `o` select x.id as id, concat(x.v, y.v) as v from {A} x inner join {B} y on x.id = y.id where x.id = '2'",
   lambda m, o: o.extend([(a[0], a[1] + b[1]) for a in m["A"] for b in m["B"] if a[0] == b[0] == "2"]))
op("join B C", "insert into `o` select x.id as id, concat(x.v, y.v) as v from {B} x inner join {C} y on x.id = y.id where x.id = '2'",
   lambda m, o: o.extend([(a[0], a[1] + b[1]) for a in m["B"] for b in m["C"] if a[0] == b[0] == "2"]))
op("update A from B", "insert into {A<UI>} select id, concat(v, '!') as v from {B} where id = '2'", lambda m, o: update(m, "A", [(i, v + "!") for i, v in m["B"] if i == "2"]))
op("update B from C", "insert into {B<UI>} select id, concat(v, '!') as v from {C} where id = '2'", lambda m, o: update(m, "B", [(i, v + "!") for i, v in m["C"] if i == "2"]))
op("count", "insert into `o` select 'n' as id, concat('', count(id)) as v from {A} where id = '2'", lambda m, o: o.append(("n", str(sum(1 for r in m["A"] if r[0] == "2")))) if any(r[0] == "2" for r in m["A"]) else None)
op("all", "insert into `o` select id, v from {A} union all select id, v from {B} union all select id, v from {C}", lambda m, o: o.extend(m["A"] + m["B"] + m["C"]))


def update(m, k, new):
    if len(set(i for i, _ in m[k])) != len(m[k]) or len(set(i for i, _ in new)) != len(new):
        raise Skip()                # rows of one key
    named = dict(new)
    m[k] = [(i, named.get(i, v)) for i, v in m[k]] + [(i, v) for i, v in new if i not in dict(m[k])]


class Skip(Exception):
    pass


def history(f, arg, tier, rec):
    s, first = arg
    names = dict(zip("ABC", SETS[s]))
    content = {names[k]: rows(k.lower(), 2) for k in "ABC"}
    n = 0
    for length in range(3 if tier == "quick" else 4):
        for rest in itertools.product(range(len(OPS)), repeat=length):
            seq = (first,) + rest
            if length == 2 and tier == "quick" and sum(seq) % 3 != s:
                continue            # the longest histories: each over one of the sets
            m = {k: tup(content[names[k]]) for k in "ABC"}
            out, stmts, ok = [], [], True
            for j, i in enumerate(seq):
                name, sql, effect = OPS[i]
                try:
                    before = {k: list(v) for k, v in m.items()}
                    effect(m, out)
                except Skip:
                    ok = False
                    break
                for k in m:
                    m[k] = [(a.replace("{n}", str(50 + j)), b) for a, b in m[k]]
                if sql is None:
                    stmts.append(("outside", names[name[-1]]))
                else:
                    for k in "ABC":
                        sql = sql.replace("{%s}" % k, "`%s`" % names[k]).replace("{%s<UI>}" % k, "`%s<UI>`" % names[k])
                    stmts.append(("sql", sql.replace("{n}", str(50 + j))))
            if not ok or any("" == v for r in m.values() for _, v in r):
                continue
            if any(not r for r in m.values()):
                continue            # files left without rows: csv then has no header
            outside = any(x[0] == "outside" for x in stmts)
            for together in ((False,) if outside or len(seq) == 1 else (False, True)):
                if not rec.state(s, seq, together):
                    continue
                f.reset(content)
                n += 1

                def run():
                    e = engine()
                    if together:
                        e.execute(";\n".join(x[1] for x in stmts))
                    else:
                        for w, x in stmts:
                            if w == "outside":
                                f.write(x, [{"id": "x", "v": "y"}])
                            else:
                                e.execute(x)
                    got = sorted(tuple(str(x) for x in r) for r in collect(e))
                    e.close()
                    return got, {k: v for k, v in f.snapshot().items()}
                rec.transitions += len(seq)
                exp = (sorted(out), {os.path.normpath(names[k]): v for k, v in m.items()})
                rec.expect("history %s %s%s" % (s, [OPS[i][0] for i in seq], " together" if together else ""), exp, attempt(run), {"files": names, "statements": stmts, "one script": together},
                           outcome=(len(out), tuple(len(v) for v in m.values())), sample={"statements": stmts} if n % 400 == 1 else None)


def text_files(f, arg, tier, rec):
    """Text files are cut at their separator, and each at its own."""
    seps = {"comma": (",", ","), "space": (" ", " "), "semi": (";", ";"), "tab": ("\t", "%09"), "pipe": ("|", "|"), "letter": ("x", "x")}
    values = [("a", "b"), ("é 1", "c"), ("-", "z")]
    f.reset({})
    for name, (sep, _) in seps.items():
        for ext in ("log", "txt"):
            open("%s.%s" % (name, ext), "w", encoding="utf-8").write("".join("%s%s%s\n" % (a.replace(" ", "_"), sep, b) for a, b in values))
    exp = [(a.replace(" ", "_"), b) for a, b in values]
    e = engine()
    n = 0
    for (x, (sx, ux)), (y, (sy, uy)) in itertools.product(seps.items(), repeat=2):
        for ex, ey in itertools.product(("log", "txt"), repeat=2):
            if not rec.state(x, y, ex, ey):
                continue
            n += 1

            def run():
                e.execute("insert into `o%d` select 'x' as k, seg0 as a, seg1 as b from `file://%s.%s?sep=%s` union all select 'y' as k, seg0 as a, seg1 as b from `file://%s.%s?sep=%s`" % (n, x, ex, ux, y, ey, uy))
                return sorted(tuple(str(v).strip("\n") for v in r) for r in collect(e, "o%d" % n))
            rec.transitions += 1
            rec.expect("text %s.%s %s.%s" % (x, ex, y, ey), sorted([("x",) + r for r in exp] + [("y",) + r for r in exp]), attempt(run), {"separators": [sx, sy]}, outcome=(x, y))

            def joined(q):
                e.execute("insert into `j%d_%d` %s" % (n, q, (
                    "select 'x' as k, a.seg0 as a, b.seg1 as b from %s a join %s b on a.seg0 = b.seg0", "select 'x' as k, seg0 as a, seg1 as b from %s a where a.seg0 in (select seg0 from %s b)",
                    "select 'x' as k, a.a as a, b.b as b from (select seg0 as a from %s a) a join (select seg0 as a, seg1 as b from %s b) b on a.a = b.a")[q]
                    % ("`file://%s.%s?sep=%s`" % (x, ex, ux), "`file://%s.%s?sep=%s`" % (y, ey, uy))))
                return sorted(tuple(str(v).strip("\n") for v in r) for r in collect(e, "j%d_%d" % (n, q)))
            for q in range(3):
                rec.transitions += 1
                rec.expect("text joined %s.%s %s.%s" % (x, ex, y, ey), sorted(("x",) + r for r in exp), attempt(lambda: joined(q)), {"separators": [sx, sy], "query": q}, outcome=(x, y, q))

            def whole():
                e.execute("insert into `p%d` select a.line as l, b.seg1 as m from `%s.txt` a join `file://%s.%s?sep=%s` b on a.line = b.line" % (n, y, y, ey, uy))
                return sorted(tuple(str(v).strip("\n") for v in r) for r in collect(e, "p%d" % n))
            rec.transitions += 1
            rec.expect("text with plain %s.%s" % (y, ey), sorted((a + sy + b, b) for a, b in exp), attempt(whole), {"separator": sy}, outcome=y)
    e.close()


def sheets(f, arg, tier, rec):
    """file.xlsx#sheet names one sheet."""
    ops = ["a", "b", "é s", None]
    for seq in itertools.product(ops, repeat=3):
        for together in (False, True):
            if not rec.state(seq, together):
                continue
            f.reset({})
            model = {}
            stmts = []
            for i, s in enumerate(seq):
                stmts.append("insert into `t.xlsx%s` select '%d' as id, 'v%d' as v" % ("" if s is None else "#" + s, i, i))
                # without a name: the first sheet
                k = s if s is not None or not model else list(model)[0]
                model.setdefault(k, []).append((str(i), "v%d" % i))
            if None in seq and seq[0] is not None or (None in seq and len(set(seq)) > 1):
                continue
            reads = {s: "insert into `o%d` select id, v from `t.xlsx%s`" % (j, "" if s is None else "#" + s) for j, s in enumerate(model)}

            def run():
                e = engine()
                for x in ([";".join(stmts)] if together else stmts):
                    e.execute(x)
                got = {}
                for j, s in enumerate(model):
                    e.execute(reads[s])
                    got[s] = collect(e, "o%d" % j)
                e.close()
                return got
            rec.transitions += 3
            rec.expect("sheets %s%s" % (seq, together), model, attempt(run), {"statements": stmts}, outcome=len(model))
