"""C20  The text of a script: ${variables}, their defaults, and raw SQL blocks.

${} : every value in every position, through every spelling, gives what the statement written with the value's text gives; every set of definitions of a name over all layers (context, root, global,
arguments, environment) decides which value it is; every default up to the bound.  raw: every raw SQL text of the bound in every form and query shape and every history of statements over raw names is compared with
what sqlite itself answers.
"""
import datetime
import itertools
import json
import os
import shutil
import sqlite3
import subprocess
import sys
import tempfile

from eng import Engine, Err
from core import watchdog

LEVEL = "model_checking"
BOUND = {
    "quick": "24 values (numbers, texts holding quotes, ${}, backslashes, newlines; true, false, null; dates, times; lists, nested) x 21 positions (literals, numbers, lists, tables, names, LIMIT, comments, SET, EXECUTE) x 11 "
             "spellings; every ordered pair of them in one literal; date formats; every subset of 6 definitions in sessions x 3 outside (argument, ARGUMENT, environment) x 6 references, and of 4 outside x 4 preset names; "
             "default texts of <=4 tokens over 12 tokens; calls of 5 functions with every <=3 of 17 arguments; 30 raw SQL texts x 7 forms x 8 query shapes; every history of <=3 of 14 statements over raw names in 2 sessions, "
             "in one script or one each",
    "thorough": "as quick with default texts of <=5 tokens and histories of <=4 statements"}
ASSUME = ["the text of a value is inserted as it is: a value with quotes changes the statement, exactly as if it were written there", "raw SQL holding %s or #{} is not used (parameters of the library); "
          "joins on the side of sqlite are left out (the library's IN is refused by sqlite)"]

D, T = datetime.date(2024, 2, 29), datetime.time(1, 2, 3)
DT = datetime.datetime(2024, 2, 29, 13, 14, 15, 999)
VALUES = [(0, "0"), (1, "1"), (-5, "-5"), (1.5, "1.5"), (-0.25, "-0.25"), (10 ** 20, str(10 ** 20)), (True, "true"), (False, "false"), (None, "null"), ("", ""), ("r", "r"), ("a b", "a b"), ("é", "é"), ("2", "2"),
          ("${@w}", "${@w}"), ("$1 \\1", "$1 \\1"), ("x\ny", "x\ny"), (D, "2024-02-29"), (DT, "2024-02-29 13:14:15"), (T, "01:02:03"), ([1, 2], "(1,2)"), ((2,), "(2)"), ([True, None, D, [1, "q"]], "(true,null,2024-02-29,(1,q))"),
          (["1", "'2'"], "(1,'2')")]
# H is the reference
POSITIONS = ["insert into o select 'H' as v", "insert into o select \"H\" as v", "insert into o select H as v", "insert into o select 'a H b $ { } ${ $x {v}' as v", "insert into o select n as v from r where id = H",
             "insert into o select n as v from r where n in ('H', 'b')", "insert into o select n as v from r where id in H", "insert into o select n as v from r where id in (H, 3)", "insert into o select n as v from H",
             "insert into o select n as v from `H`", "insert into o select n as `H` from r", "insert into o select n as v, 'H' as w, id as `H` from r where n != 'H'", "insert into o select /* H */ 1 as v", "insert into o select 1 as v -- H\n",
             "insert into oH select 1 as v", "insert into o select n as v from r limit H", "set @x = 'H'; insert into o select @x as v", "set @x = H; insert into o select @x as v", "insert into o select if(H, 1, 2) as v",
             "insert into o select concat('HH', 'H', \"-H\") as v", "insert into o select n as v from r order by id H"]
# spelling -> does it find the variable @v?
SPELLINGS = [("${@v}", True), ("${@v:}", True), ("${@v:no}", True), ("${@v:upper(x)}", True), ("${@V}", True), ("${@V:no}", True), ("${@Vv}", None), ("${none:H0}", False), ("${@none:H0}", False), ("${none}", None),
             ("${@none:}", None)]


def units(tier):
    out = [("value", i) for i in range(len(VALUES))]
    out += [("lookup", i) for i in range(16)] + [("preset", None)]
    out += [("default", i) for i in range(len(TOKENS))] + [("call", f) for f in sorted(CALLS)]
    out += [("raw", f) for f in sorted(FORMS)] + [("history", i) for i in range(len(HISTORY))]
    return [u + (tier,) for u in out]


def explore(unit, rec):
    what, arg, tier = unit
    {"value": value, "lookup": lookup, "preset": preset, "default": default, "call": call, "raw": raw, "history": history}[what](arg, tier, rec)


# ---------------------------------------------------------------------------------------------- values
def outcome(e, sql):
    """Everything a statement leaves behind; its failure."""
    e.clear()
    e.put("r", [{"id": 1, "n": "a"}, {"id": 2, "n": "b"}, {"id": 3, "n": "c"}])
    e.put("a b", [{"id": 1, "n": "s"}])
    e.put("2", [{"id": 1, "n": "two"}])
    err = e.run(sql)
    if err is not None:
        return err
    return {k: [tuple(r.items()) for r in v] for k, v in e.tables().items() if not k.endswith((".r", ".a b", ".2"))}


def value(i, tier, rec):
    v, text = VALUES[i]
    e = Engine()
    for position in POSITIONS:
        expected = {}
        for how, finds in SPELLINGS:
            if finds is None:
                t, h = "", how
            elif "${" in text:
                continue            # could not be written there; the pairs have it
            elif finds:
                t, h = text, how
            else:
                if "}" in text or text.strip().startswith("("):
                    continue
                t, h = text, how.replace("H0", text)
            if not rec.state(i, position, how):
                continue
            if t not in expected:
                expected[t] = outcome(e, position.replace("H", t))
            e.e.set_variable("v", v)
            sql = position.replace("H", h)
            rec.transitions += 1
            rec.expect("value %r, %s" % (v, sql), expected[t], outcome(e, sql), {"sql": sql, "@v": v, "as": position.replace("H", t)}, outcome=(i, isinstance(expected[t], Err)),
                       sample={"sql": sql, "@v": str(v)} if position == POSITIONS[1] and how == "${@v}" else None)
            if position == POSITIONS[0] and "'" not in t and "\\" not in t:
                rec.expect("literal %r, %s" % (v, sql), {"--.o": [(("v", t),)]}, expected[t], {"sql": sql}, outcome=i)
            e.e.set_variable("v", None)
    # pairs in one literal
    for w, other in VALUES:
        for pattern, t in (("AB", text + other), ("BA-A", other + text + "-" + text), ("${@no:x}A${@no}B", "x" + text + other)):
            if "'" in t or "\\" in t or not rec.state(i, other, pattern):
                continue
            e.e.set_variable("v", v)
            e.e.set_variable("w", w)
            sql = "insert into o select '%s' as v" % pattern.replace("B", "${@w}").replace("A", "${@v}")
            rec.transitions += 1
            rec.expect("pair %r %r %s" % (v, w, pattern), {"--.o": [(("v", t),)]}, outcome(e, sql), {"sql": sql, "@v": v, "@w": w}, outcome=i)
    # the formats of the session
    for config, f in (({"date_format": "%d.%m.%y"}, {D: "29.02.24"}), ({"datetime_format": "%Y/%j %H"}, {DT: "2024/060 13"}), ({"time_format": "%Hh%M"}, {T: "01h02"})):
        if not isinstance(v, (datetime.date, datetime.time)) or not rec.state(i, str(config)):
            continue
        x = Engine(config)
        x.e.set_variable("v", v)
        rec.transitions += 1
        rec.expect("format %r %s" % (v, config), {"--.o": [(("v", f.get(v, text)),)]}, outcome(x, "insert into o select '${@v}' as v"), {"config": config, "@v": str(v)}, outcome=i)
        x.close()
    e.close()


# ---------------------------------------------------------------------------------------------- lookup
REFS = ["${%s:none}", "${%s}"]
PLACES = [("context", "@k"), ("context", "@K"), ("root", "@k"), ("root", "@K"), ("global", "@k"), ("global", "@K")]
OUTSIDE = [("argument", "k"), ("argument", "K"), ("environment", "K")]
CHILD = r'''
import json, sys
import logging
logging.disable(logging.CRITICAL)
cases = json.load(open("cases.json"))
out = []
import syncanysql
e = syncanysql.ScriptEngine({"loglevel": "CRITICAL"})
e.setup()
c = e.context()
for sets, queries in cases:
    for session, sql in sets:
        (c if session == "context" else e).execute(sql)
    for session, sql in queries:
        s = c if session == "context" else e
        try:
            s.pop_memory_datas("o")
        except Exception:
            pass
        try:
            s.execute(sql)
            out.append([r["v"] for r in s.get_memory_datas("o")])
        except Exception as exc:
            out.append(["error", repr(exc)[:200]])
json.dump(out, open("out.json", "w"))
'''


def child(cases, args=(), env=(), cwd=None):
    base = cwd or tempfile.mkdtemp(prefix="mc20-", dir=os.environ.get("MC_SCRATCH") or None)
    try:
        json.dump(cases, open(os.path.join(base, "cases.json"), "w"))
        open(os.path.join(base, "child.py"), "w").write(CHILD)
        environment = {k: v for k, v in os.environ.items() if k in ("PATH", "PYTHONPATH", "LANG", "LC_ALL", "PYTHONHASHSEED")}
        environment.update({"HOME": base, "PYTHONDONTWRITEBYTECODE": "1"})
        environment.update(env)
        environment = {k: v for k, v in environment.items() if v is not None}
        r = subprocess.run([sys.executable, "-W", "ignore", "child.py"] + list(args), cwd=base, env=environment, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode:
            return Err(RuntimeError(r.stdout.decode()[-300:]))
        return json.load(open(os.path.join(base, "out.json")))
    finally:
        if not cwd:
            shutil.rmtree(base, ignore_errors=True)


def find(layers, name):
    """layers: dicts from the innermost session outwards."""
    for n in (name, name.lower()):
        for layer in layers:
            if n in layer:
                return layer[n]
            if n[0] == "@" and n[1:] in layer:
                return layer[n[1:]]
    return None


def lookup(part, tier, rec):
    cases, args, env, todo = [], [], {}, []
    combos = [(places, outside) for places in itertools.product((0, 1), repeat=6) for outside in itertools.product((0, 1), repeat=3)]
    for i, (places, outside) in enumerate(combos):
        if i % 16 != part or not rec.state(places, outside):
            continue
        k, K = "k%dq" % i, "K%dQ" % i
        layers = {"context": {}, "root": {}, "outside": {}}
        sets = []
        for on, (where, n) in zip(places, PLACES):
            if on:
                n = n.replace("k", k).replace("K", K)
                val = "%s%s" % (where[0], n[1:])
                layers["outside" if where == "global" else where][n] = val
                sets.append((where, "set %s%s = '%s'" % ("global " if where == "global" else "", n, val)))
        # SET GLOBAL is executed by the root
        sets = [("root" if s == "global" else s, x) for s, x in sets]
        values = {}
        for on, (where, n) in zip(outside, OUTSIDE):
            if on:
                n = n.replace("k", k).replace("K", K)
                val = "%s%s" % (where[:3], n)
                if where == "argument":
                    args.append("--%s=%s" % (n, val))
                    values[("a", n)] = val
                else:
                    env[n] = val
                    values[("e", n.lower())] = val
        for (where, n), val in sorted(values.items(), reverse=True):       # arguments over the environment
            layers["outside"][n] = val
        queries = []
        for session in ("context", "root"):
            ls = ([layers["context"]] if session == "context" else []) + [layers["root"], layers["outside"]]
            for name in (k, K, "@" + k, "@" + K):
                got = find(ls, name)
                for ref in REFS:
                    queries.append((session, "insert into o select '%s' as v" % (ref % name)))
                    todo.append((places, outside, session, ref % name, [got if got is not None else ("none" if "none" in ref else "")]))
            for name in ("@" + k, "@" + K):
                got = find(ls, name) if name == name.lower() else next((layer[n] for layer in ls for n in (name, name[1:]) if n in layer), None)
                queries.append((session, "insert into o select %s as v" % name))
                todo.append((places, outside, session, name, [got]))
        cases.append((sets, queries))
    got = child(cases, args, env)
    if isinstance(got, Err):
        rec.bad("lookup %d" % part, repr(got), {"part": part})
        return
    for (places, outside, session, ref, exp), g in zip(todo, got):
        rec.transitions += 1
        defined = [" ".join(p) for on, p in zip(places + outside, PLACES + OUTSIDE) if on]
        rec.expect("lookup of %s in the %s: %s" % (ref, session, ", ".join(defined)), exp, g, {"defined": defined, "reference": ref, "session": session}, outcome=exp[0] and exp[0][:2],
                   sample={"defined": defined, "reference": ref, "value": exp[0]} if places == (1, 0, 1, 0, 0, 0) and session == "context" else None)


def preset(arg, tier, rec):
    """home, cwd, syncany_home and platform; overridden by arguments only."""
    for home, shome, given, environ in itertools.product((0, 1), repeat=4):
        if not rec.state(home, shome, given, environ):
            continue
        base = os.path.realpath(tempfile.mkdtemp(prefix="mc20-", dir=os.environ.get("MC_SCRATCH") or None))
        try:
            other = os.path.join(base, "h")
            os.makedirs(other)
            env = {"HOME": other if home else base}
            if shome:
                env["SYNCANY_HOME"] = os.path.join(base, "sh")
            values = {"home": env["HOME"], "cwd": base, "syncany_home": env.get("SYNCANY_HOME", os.path.join(env["HOME"], ".syncany")), "platform": sys.platform}
            args = []
            if environ:
                env.update({"CWD": "e1", "PLATFORM": "e2", "MC20X": "e3", "mc20y": "e4"})
            values.update({"mc20x": "e3" if environ else None, "mc20y": "e4" if environ else None})
            if given:
                args = ["--cwd=g1", "--platform=g2", "--home=g3", "--syncany_home=g4", "--mc20x=g5", "--flag", "--eq=a=b", "--q='x y'", '--d="z"', "--e=", "-x=1", "pos=2", "--half='x"]
                values.update({"cwd": "g1", "platform": "g2", "home": "g3", "syncany_home": "g4", "mc20x": "g5", "flag": True, "eq": "a=b", "q": "x y", "d": "z", "e": "", "half": "'x", "x": None, "pos": None})
            queries, todo = [], []
            for name, val in sorted(values.items()):
                for ref in ("${%s}" % name, "${%s:none}" % name.upper(), "${@%s}" % name, "@" + name):
                    exp = val
                    if ref[0] == "$":
                        exp = {True: "true", None: "none" if "none" in ref else ""}.get(val, val)
                    queries.append(("root", "insert into o select %s as v" % (ref if ref[0] == "@" else '"%s"' % ref)))
                    todo.append((ref, exp))
            got = child([([], queries)], args, env, cwd=base)
            if isinstance(got, Err):
                rec.bad("preset", repr(got), {"args": args})
                continue
            for (ref, exp), g in zip(todo, got):
                rec.transitions += 1
                rec.expect("preset %s, HOME %d, SYNCANY_HOME %d, arguments %d, environment %d" % (ref, home, shome, given, environ), [exp], g, {"args": args, "env": env}, outcome=str(exp)[-6:])
        finally:
            shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- defaults
TOKENS = ["a", " ", ":", "(", ")", ",", "{", "'", "1", "f(", "$", "long_name_of_a_column_in_a_table"]


def default(i, tier, rec):
    e = Engine()
    batch, tests = [], []

    def flush():
        sql = "insert into o select " + ", ".join("\"${mc20none:%s}\" as c%d" % (t, j) for j, t in enumerate(batch))
        got = outcome(e, sql)
        rec.transitions += len(batch)
        got = [v for _, v in got["--.o"][0]] if not isinstance(got, Err) and got.get("--.o") else [got] * len(batch)
        for t, g in zip(batch, got):
            rec.expect("default %r" % t, t, g, {"default": t}, outcome=len(t), sample={"default": t} if len(t) == 7 else None)
        del batch[:]
    for n in range(4 if tier == "quick" else 5):
        for rest in itertools.product(TOKENS, repeat=n):
            t = TOKENS[i] + "".join(rest)
            if not rec.state(t):
                continue
            batch.append(t)
            if len(batch) == 60:
                flush()
    if batch:
        flush()
    e.close()


# text of an argument -> its value
ARGS = [("a", "a"), ("'a'", "a"), ('"a"', "a"), ("'a,b'", "a,b"), ('"a,b"', "a,b"), ("1", 1), ("-1", -1), ("1.5", 1.5), ("-1.5", -1.5), ("true", True), ("NULL", None), ("''", ""), (" x ", "x"), ("(a)", "(a)"), ("1.5.2", "1.5.2"),
        ("'1'", "1"), ("it's", "it's")]


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def plain(x):
    return isinstance(x, str) and x != ""


def add(args):
    if len(args) < 2 or not all(number(a) for a in args) or len(set(type(a) for a in args)) > 1:
        return SKIP
    return sum(args)


SKIP = object()


def concat_ws(args):
    if len(args) < 2 or not plain(args[0]) or not all(plain(a) or (number(a) and isinstance(a, int)) for a in args):
        return SKIP
    return str(args[0]).join(str(a) for a in args[1:])


CALLS = {"add": add,
         "mysql__concat_ws": concat_ws,
         "mysql__concat": lambda args: SKIP if not args or not all(plain(a) or (number(a) and isinstance(a, int)) for a in args) else "".join(str(a) for a in args),
         "json__encode": lambda args: SKIP if len(args) != 1 else json.dumps(args[0]),
         "mysql__replace": lambda args: SKIP if len(args) != 3 or not all(plain(a) for a in args) else args[0].replace(args[1], args[2])}


def shown(x):
    """A function's result as text."""
    if isinstance(x, float):
        return "%f" % x
    return str(x)


def call(name, tier, rec):
    e = Engine()
    for n in range(4):
        for args in itertools.product(ARGS, repeat=n):
            exp = CALLS[name]([v for _, v in args])
            if exp is SKIP:
                continue
            for space in ("%s(%s)", " %s(%s) "):
                t = space % (name, ",".join(x for x, _ in args))
                q = "'" if '"' in t + shown(exp) else '"'
                if q in t + shown(exp) or not rec.state(t):
                    continue
                sql = "insert into o select %s${mc20none:%s}%s as v" % (q, t, q)
                rec.transitions += 1
                got = outcome(e, sql)
                if not isinstance(got, Err) and got.get("--.o"):
                    got = got["--.o"][0][0][1]
                rec.expect("call %s" % t, shown(exp), got, {"default": t}, outcome=shown(exp)[:5], sample={"default": t, "text": shown(exp)} if n == 2 and args[0] == ARGS[3] else None)
    e.close()


# ---------------------------------------------------------------------------------------------- raw SQL
ROWS = [(1, "a", 10), (2, "b'c", None), (3, None, 30), (4, "a;b", 5), (5, "x", 7)]
RAWS = ["select id, v, n from t", "select id, v, n from t where id < 3", "select id, v, n from t where v = 'a'", "select id, v, n from t where v = 'b''c'", 'select id, v, n from t where v = "a"', "select id, v || ';' as v, n from t",
        "select id, v, n from t where v in ('a', 'x')", "select id, ')/*' as v, n from t", "select id, '/* x */' as v, n from t", "select id, 'endraw' as v, n from t", "select id, -- a comment ; it's\n 'q' as v, n from t",
        "select id, /* a 'comment */ 'q' as v, n from t", "(select id, v, n from t)", "select id, v, n from (select id, v, n from t where id in (1, 2))", "select id, v, n from t union all select 9, 'u', 1",
        "select id, count(*) as v, max(n) as n from t group by id", "select id, '\\' as v, n from t", "select id, '\\\\' || v as v, n from t", "select id, '\\''' as v, n from t", "select id, `v`, \"n\" from `t`",
        "select id, '`' as v, n from t", "select id, '\"' as v, n from t", "select id, v, n from t where v like '%a%'", "select id, '''' as v, n from t", "select id, '''''''' as v, n from t",
        "select id, v, n from t order by id desc", "select id, case when n > 6 then 'big' else 'small' end as v, n from t", "select id, v, (select max(n) from t) as n from t", "select id, 'é' as v, n from t", "select id, v, n\n\n from t\n where id = 1\n"]
FORMS = {"spaced": "/* raw(s.N) */ (\n Q \n) /* endraw */", "tight": "/*raw(s.N)*/(Q)/*endraw*/", "comment": "/* raw(s.N) Q endraw */", "lines": "/* raw(s.N)\n  Q\nendraw */", "mixed": "/*raw(s.N)*/ (Q) /* endraw*/",
         "newlines": "/*\nraw(s.N)\n*/\n(\nQ\n)\n/*\nendraw\n*/", "inner": "/*raw(s.N)*/(Q /* note */)/*endraw*/"}
# (query over R, model over the raw rows (id, v, n))
SHAPES = [("select id, v, n from R a", lambda r: r), ("select id, v, n from R a where a.id = 2", lambda r: [x for x in r if x[0] == 2]), ("select a.id, a.v, a.n from R a where a.id >= 2 and a.id < 5", lambda r: [x for x in r if 2 <= x[0] < 5]),
          ("select id, v, n from R a order by id desc limit 2", lambda r: sorted(r, key=lambda x: -x[0])[:2]), ("select count(*) as id, 'k' as v, min(id) as n from R a", lambda r: [(len(r), "k", min(x[0] for x in r))] if r else []),
          ("select id, v, n from (select id, v, n from R a) b where b.id != 1", lambda r: [x for x in r if x[0] != 1]),
          ("select a.id, a.v, b.w as n from R a left join m b on a.id = b.id", lambda r: [(x[0], x[1], {1: "m1", 2: "m2"}.get(x[0])) for x in r]),
          ("select id, v, 'u' as n from m0 union all select id, v, n from R a", lambda r: [(0, "z", "u")] + r)]


class Db(object):
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="mc20-", dir=os.environ.get("MC_SCRATCH") or None)
        self.path = os.path.join(self.base, "x.db")
        c = sqlite3.connect(self.path)
        c.execute("create table t(id integer, v text, n integer)")
        c.executemany("insert into t values(?, ?, ?)", ROWS)
        c.commit()
        c.close()

    def answer(self, sql):
        c = sqlite3.connect(self.path)
        try:
            return c.execute(sql).fetchall()
        finally:
            c.close()

    def engine(self):
        e = Engine({"databases": [{"name": "s", "driver": "sqlite", "database": self.path,
                                    "virtual_views": [{"name": "c", "query": "select 9 as id, 'config' as v"}]}]})
        return e

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def raw(form, tier, rec):
    db = Db()
    e = db.engine()
    try:
        for i, q in enumerate(RAWS):
            if form in ("comment", "lines") and ("*/" in q or "/*" in q):
                continue            # inside a comment
            if "\\'" in q and form not in ("comment", "lines"):
                continue            # a backslash before a quote: sqlite and the statement disagree about where the string ends
            want = db.answer("select id, v, n from (%s)" % q)
            for j, (shape, model) in enumerate(SHAPES):
                for order in (0, 1):
                    # the text next to the block: strings, another block's word
                    sql = "insert into o " + shape.replace("R", FORMS[form].replace("N", "r%d" % (i if order else 0)).replace("Q", q))
                    if order:
                        sql = "-- raw block\n" + sql + " /* after */"
                    if not rec.state(form, i, j, order):
                        continue

                    def run():
                        e.clear()
                        e.put("m", [{"id": 1, "w": "m1"}, {"id": 2, "w": "m2"}])
                        e.put("m0", [{"id": 0, "v": "z"}])
                        err = e.run(sql)
                        if err is not None:
                            return err
                        got = [tuple(r.values()) for r in e.rows("o")]
                        return got if "order by" in shape else sorted(got, key=repr)
                    exp = model(want)
                    rec.transitions += 1
                    rec.expect("raw %s: %s" % (form, sql), exp if "order by" in shape else sorted(exp, key=repr), run(), {"sql": sql}, outcome=len(exp), sample={"sql": sql, "rows": exp[:2]} if j == 1 and i % 9 == 3 else None)
    finally:
        e.close()
        db.close()


# a statement: (session, raw name or None, query)  -- None: the name is read without a block
HISTORY = [("root", "r", "select 1 as id, 'one' as v"), ("root", "r", "select 2 as id, 'two' as v"), ("root", "q", "select 3 as id, 'three' as v"), ("root", "t", "select 4 as id, 'four' as v"), ("root", None, "r"), ("root", None, "q"),
           ("root", None, "t"), ("context", "r", "select 5 as id, 'five' as v"), ("context", None, "r"), ("context", None, "t"),
           ("root", None, "c"), ("context", None, "c"), ("root", "c", "select 8 as id, 'eight' as v"), ("root", "r q", "select 6 as id, 'six' as v|select 7 as id, 'seven' as v")]


def history(first, tier, rec):
    db = Db()
    table = [(1, "a"), (2, "b'c"), (3, None), (4, "a;b"), (5, "x")]
    n = 0
    try:
        for length in range(3 if tier == "quick" else 4):
            for rest in itertools.product(range(len(HISTORY)), repeat=length):
                seq = (first,) + rest
                for together in (False, True):
                    if together and (len(seq) == 1 or len(set(HISTORY[i][0] for i in seq)) > 1):
                        continue
                    if not rec.state(seq, together):
                        continue
                    views = {"root": {"c": [(9, "config")]}, "context": {}}
                    exp, stmts, loud = [], [], False
                    for i in seq:
                        session, name, q = HISTORY[i]
                        if name is None:
                            view = views[session].get(q) if session == "root" else views["context"].get(q, views["root"].get(q))
                            if view is None and q != "t":
                                loud = True
                                break
                            exp += view or table
                            stmts.append((session, "insert into o select id, v from s.%s a" % q))
                        elif " " in name:
                            for k, x in zip(name.split(), q.split("|")):
                                views[session][k] = [tuple(db.answer(x)[0])]
                            exp += views[session]["r"] + views[session]["q"]
                            stmts.append((session, "insert into o select id, v from /*raw(s.r)*/(%s)/*endraw*/ a union all select id, v from /*raw(s.q)*/(%s)/*endraw*/ b" % tuple(q.split("|"))))
                        else:
                            views[session][name] = [tuple(db.answer(q)[0])]
                            exp += views[session][name]
                            stmts.append((session, "insert into o select id, v from /*raw(s.%s)*/(%s)/*endraw*/ a" % (name, q)))
                    if loud:
                        continue
                    n += 1

                    def run():
                        e = db.engine()
                        try:
                            c = e.e.context()
                            with watchdog():
                                if together:
                                    (c if stmts[0][0] == "context" else e.e).execute(";\n".join(x for _, x in stmts))
                                else:
                                    for s, x in stmts:
                                        (c if s == "context" else e.e).execute(x)
                            return sorted([tuple(r.values()) for r in e.rows("o")], key=repr)
                        except Exception as exc:
                            return Err(exc)
                        finally:
                            e.close()
                    rec.transitions += len(seq)
                    rec.expect("raw history %s%s" % (seq, " together" if together else ""), sorted(exp, key=repr), run(), {"statements": stmts, "one script": together}, outcome=len(exp),
                               sample={"statements": stmts} if n % 60 == 1 else None)
    finally:
        db.close()
