"""C27  A view of a database stands for its SQL, with the parameters the query gives or their defaults.

Every view text x parameter x default x conditions of the query up to the bound, in every query shape, and every history of SETs over views is run on the real engine and compared with what sqlite itself answers for the
view's SQL with the values in place.
"""
import copy
import gc
import itertools
import json
import os
import shutil
import sqlite3
import tempfile

from eng import Engine, Err

LEVEL = "model_checking"
BOUND = {
    "quick": "views of 1 parameter: 3 columns x 7 operators (none, eq, neq, gt, gte, lt, lte) x 14 defaults x 3 positions x every set of <=2 of 18 conditions of the query (a default each); of 2 parameters: every ordered pair of 12 "
             "parameters x every set of <=1 of 18 conditions; 12 query shapes; every history of <=3 of 16 SETs over the views of two databases in two sessions; every choice of 5 contents in 3 layers of configuration",
    "thorough": "as quick with every set of <=2 conditions for 2 parameters, 3 parameters without conditions and histories of <=4 SETs"}
ASSUME = ["the library gives each parameter the first condition of the query on that column with that operator; a column and an operator stand at most once in the query's conditions", "no parameters of IN (the library "
          "binds one value); no NULLs in the table (sqlite's conditions are three-valued)", "views are the first table of a query (the library's IN over several values is refused by sqlite)"]

ROWS = [(1, 1, "a"), (2, 2, "b"), (3, 3, "c"), (4, 2, "a"), (5, 10, "d:e f"), (6, 0, "2"), (7, -1, "")]
OPS = {None: "=", "eq": "=", "neq": "!=", "gt": ">", "gte": ">=", "lt": "<", "lte": "<="}
SQLOP = ["=", "!=", ">", ">=", "<", "<="]
# the default as written (with its colon), the value it is
DEFAULTS = [("", ""), (":", ""), (":2", 2), (":-1", -1), (":2.5", 2.5), (":\"a\"", "a"), (":\"2\"", "2"), (":b", "b"), (":d:e f", "d:e f"), (":null", None), (":true", True), (":a b", "a b"), (":'a'", "'a'"), (":  3", 3)]
COLS = ["id", "n", "v"]
CONDS = [(c, o, v) for c, v in (("id", 3), ("n", 2), ("v", "b")) for o in SQLOP]
POSITIONS = ["select id, n, v from t where %s", "select * from t\nwhere id > 0 and (%s or id = 7)", "select id, n, v from (select * from t where %s) where v != 'c'"]


class Db(object):
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="mc27-", dir=os.environ.get("MC_SCRATCH") or None)
        self.paths = {}
        for name, rows in (("s", ROWS), ("r", [(11, 5, "x"), (12, 6, "y")])):
            self.paths[name] = os.path.join(self.base, name + ".db")
            c = sqlite3.connect(self.paths[name])
            c.execute("create table t (id integer, n integer, v text)")
            c.executemany("insert into t values (?, ?, ?)", rows)
            c.commit()
            c.close()
        self.count = 0

    def answer(self, sql, args=(), db="s"):
        c = sqlite3.connect(self.paths[db])
        try:
            return [list(r) for r in c.execute(sql, args).fetchall()]
        finally:
            c.close()

    def engine(self, views=()):
        self.count += 1
        if self.count % 50 == 0:
            gc.collect()
        return Engine({"databases": [{"name": "s", "driver": "sqlite", "database": self.paths["s"], "virtual_views": [dict(v) for v in views]}, {"name": "r", "driver": "sqlite", "database": self.paths["r"]}]})

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def units(tier):
    out = [("one", (c, o)) for c in COLS for o in OPS]
    out += [("two", i) for i in range(len(PARAMS))] + [("shape", None)] + [("history", i) for i in range(len(SETS))] + [("layers", i) for i in range(len(CONTENTS))]
    if tier != "quick":
        out += [("three", i) for i in range(len(PARAMS))]
    return [u + (tier,) for u in out]


def explore(unit, rec):
    what, arg, tier = unit
    db = Db()
    try:
        {"one": one, "two": two, "three": three, "shape": shape, "history": history, "layers": layers}[what](db, arg, tier, rec)
    finally:
        db.close()


def literal(v):
    return "'%s'" % v if isinstance(v, str) else str(v)


def values(params, conds):
    """The value of every parameter, and the conditions that are left."""
    used, vals = set(), []
    for col, op, default in params:
        given = [c for c in conds if c[0] == col and c[1] == OPS[op]]
        if given:
            used.add(given[0])
            vals.append(given[0][2])
        else:
            vals.append(default)
    return vals, [c for c in conds if c not in used]


def want(db, text, params, conds, what="id, n, v"):
    """What sqlite answers: text has a ? for every parameter."""
    vals, left = values(params, conds)
    return db.answer("select %s from (%s)%s" % (what, text, (" where " + " and ".join("%s %s %s" % (c, o, literal(v)) for c, o, v in left)) if left else ""), vals)


def rows(got):
    return got if isinstance(got, Err) else sorted([list(r.values()) for r in got], key=repr)


def ask(e, conds):
    return rows(e.query("select id, n, v from s.w x%s" % ((" where " + " and ".join("%s %s %s" % (c, o, literal(v)) for c, o, v in conds)) if conds else "")))


def quoted(text):
    return "'''%s'''" % text


def conditions(most):
    for r in range(most + 1):
        for conds in itertools.permutations(CONDS, r):
            if len({(c, o) for c, o, _ in conds}) == r:
                yield conds


def name(col, op):
    return col if op is None else "%s__%s" % (col, op)


def define(e, rec, text, key):
    err = e.run("set @config.databases.s.virtual_views.w = " + quoted(text))
    if err is not None:
        rec.bad("definition " + key, "a view was refused: %r" % err, {"view": text})
    return err is None


def one(db, arg, tier, rec):
    col, op = arg
    e = db.engine()
    for d, (default, value) in enumerate(DEFAULTS):
        for p, position in enumerate(POSITIONS):
            cond = "%s %s " % (col, OPS[op])
            text = position % (cond + "#{%s%s}" % (name(col, op), default))
            rec.transitions += 1
            if not define(e, rec, text, text):
                continue
            # every condition with one default and one position; the one that is the parameter's with all
            for conds in conditions(2) if (d + p * 5) % 7 == 0 else conditions(1) if d % 2 else [(), ((col, OPS[op], CONDS[COLS.index(col) * 6][2]),)]:
                if not rec.state(d, p, conds):
                    continue
                rec.transitions += 1
                exp = sorted(want(db, position % (cond + "?"), [(col, op, value)], conds), key=repr)
                rec.expect("%s | %s" % (text, conds), exp, ask(e, conds), {"view": text, "conditions": conds}, outcome=repr(exp)[:60], sample={"view": text, "conditions": conds, "rows": exp} if rec.transitions % 97 == 3 else None)
    e.close()


PARAMS = [(c, o, v) for c, o, v in (("id", "gte", 2), ("id", "lte", 6), ("id", None, 4), ("id", "neq", 1), ("n", "gt", 0), ("n", "gte", 2), ("n", "lt", 3), ("n", "eq", 2), ("v", None, "a"), ("v", "neq", "b"),
                                    ("v", "gt", "a"), ("v", "lte", "c"))]
JOINS = [" and ", " or ", "\n  and not "]


def several(db, params, most, rec):
    e = db.engine()
    for glue in JOINS:
        parts = ["%s %s " % (c, OPS[o]) for c, o, _ in params]
        text = "select * from t where " + glue.join("%s#{%s:%s}" % (p, name(c, o), json.dumps(v)) for p, (c, o, v) in zip(parts, params))
        asked = "select * from t where " + glue.join(p + "?" for p in parts)
        rec.transitions += 1
        if not define(e, rec, text, text):
            continue
        for conds in conditions(most):
            if not rec.state(params, glue, conds):
                continue
            rec.transitions += 1
            exp = sorted(want(db, asked, params, conds), key=repr)
            rec.expect("%s | %s" % (text, conds), exp, ask(e, conds), {"view": text, "conditions": conds}, outcome=repr(exp)[:60])
    e.close()


def two(db, i, tier, rec):
    for other in PARAMS:
        several(db, (PARAMS[i], other), 1 if tier == "quick" else 2, rec)


def three(db, i, tier, rec):
    for a, b in itertools.product(PARAMS, repeat=2):
        several(db, (PARAMS[i], a, b), 0, rec)


# the query over V (the view, or a table holding what sqlite answers), its conditions on the view
SHAPES = [("select id, v from V x", ()), ("select id from V x where n >= 2", (("n", ">=", 2),)), ("select n, count(*) c, max(v) m from V x where n >= 0 group by n", (("n", ">=", 0),)),
          ("select id from V x where n >= 1 order by id desc", (("n", ">=", 1),)), ("select x.id, k.w from V x join k on x.id = k.id where x.n >= 2", (("n", ">=", 2),)),
          ("select id from (select id, n from V x where n >= 2) y where id > 2", (("n", ">=", 2),)), ("select id from V x where n >= 2 union all select id from k y", (("n", ">=", 2),)),
          ("select id, w from k where id in (select id from V x where n >= 2)", (("n", ">=", 2),)), ("with q as (select id, n from V x where n >= 2) select id from q where n < 10", (("n", ">=", 2),)),
          ("select id, row_number() over (partition by n order by id) r from V x where n >= 2", (("n", ">=", 2),)), ("select distinct v from V x where n >= 1", (("n", ">=", 1),)),
          ("select id, if(n > 2, v, 'small') q from V x where n >= 2 and id != 4", (("n", ">=", 2), ("id", "!=", 4)))]


def shape(db, arg, tier, rec):
    for (col, op, default), (sql, conds) in itertools.product(PARAMS, SHAPES):
        if not rec.state(col, op, sql):
            continue
        text = "select * from t where %s %s #{%s:%s}" % (col, OPS[op], name(col, op), json.dumps(default))
        e = db.engine()
        e.put("k", [{"id": i, "w": "k%d" % i} for i in (1, 2, 4, 9)])
        rec.transitions += 2
        if define(e, rec, text, text):
            got = rows(e.query(sql.replace("V", "s.w")))
            e.put("ref", [dict(zip(COLS, r)) for r in want(db, "select * from t where %s %s ?" % (col, OPS[op]), [(col, op, default)], conds)])
            exp = rows(e.query(sql.replace("V", "ref").replace(" where n >= 2", " where n >= -9") if (col, op) == ("n", "gte") else sql.replace("V", "ref")))
            rec.expect("%s | %s" % (text, sql), exp, got, {"view": text, "query": sql}, outcome=repr(exp)[:60], sample={"view": text, "query": sql, "rows": exp} if rec.transitions % 31 == 0 else None)
        e.close()


# ------------------------------------------------------------------------------------------- histories
V1, V2, V3 = "select id, n, v from t where n = #{n:2}", "select id, n, v from t where id < #{id__lt:3}", "select 100 as id, 0 as n, 'z' as v"
ASKED = {V1: ("select id, n, v from t where n = ?", [2]), V2: ("select id, n, v from t where id < ?", [3]), V3: (V3, [])}


def set_view(d, n, text):
    return lambda c: c[d].__setitem__(n, {"query": ASKED[text][0], "args": list(ASKED[text][1])})


def drop_view(d, n):
    return lambda c: c[d].pop(n, None)


def set_part(d, n, part, value):
    def f(c):
        c[d].setdefault(n, {"query": "", "args": []})[part] = copy.deepcopy(value)
    return f


SETS = [("set @config.databases.%s.virtual_views.%s = %s" % (d, n, quoted(v)), set_view(d, n, v)) for d, n, v in (("s", "w", V1), ("s", "w", V2), ("s", "w", V3), ("s", "u", V2), ("s", "t", V3), ("r", "w", V2), ("r", "u", V3))]
SETS += [("set @config.databases.%s.virtual_views.%s = null" % (d, n), drop_view(d, n)) for d, n in (("s", "w"), ("s", "u"), ("r", "w"), ("s", "t"))]
SETS += [("set @databases.s.virtual_views.w.query = 'select * from t where n = %s'", set_part("s", "w", "query", "select * from t where n = ?")),
         ("set @config.databases.s.virtual_views.w.query = 'select id, 7 as n, v from t'", set_part("s", "w", "query", "select id, 7 as n, v from t")),
         ("set @config.databases.s.virtual_views.w.args = '[[\"n\", \"==\", 3]]'", set_part("s", "w", "args", [3])), ("set @databases.s.virtual_views.w.args = '[]'", set_part("s", "w", "args", [])),
         ("select id, n, v from s.w x", None)]


def history(db, first, tier, rec):
    for r in range(3 if tier == "quick" else 4):
        for rest in itertools.product(range(len(SETS)), repeat=r):
            seq = (first,) + rest
            if not rec.state(seq):
                continue
            rec.transitions += len(seq)
            model = {"s": {"c": {"query": "select 9 as id, 9 as n, 'config' as v", "args": []}}, "r": {}}
            e = db.engine([{"name": "c", "query": "select 9 as id, 9 as n, 'config' as v"}])
            failed = None
            for i in seq:
                sql, effect = SETS[i]
                if effect is None:
                    e.query(sql)
                    continue
                effect(model)
                err = e.run(sql)
                if err is not None:
                    failed = failed or (sql, repr(err))
            case = {"statements": [SETS[i][0] for i in seq]}
            if failed:
                rec.bad("refused", "%s was refused: %s" % failed, case)
            got, exp = {}, {}
            for d in ("s", "r"):
                for n in ("w", "u", "t", "c"):
                    view = model[d].get(n)
                    try:
                        exp[d + "." + n] = sorted(db.answer("select id, n, v from (%s)" % view["query"] if view else "select id, n, v from " + n, view["args"] if view else [], d), key=repr)
                    except sqlite3.Error:
                        exp[d + "." + n] = "error"
                    if view and view["query"] == "":
                        exp[d + "." + n] = "error"
                    answer = rows(e.query("select id, n, v from %s.%s x" % (d, n)))
                    got[d + "." + n] = "error" if isinstance(answer, Err) else answer
            e.close()
            rec.expect("; ".join(case["statements"]), exp, got, case, outcome=repr(exp)[:300], sample=dict(case, answers=exp) if rec.transitions % 301 == 1 else None)


# -------------------------------------------------------------------------------------------- layers
CONTENTS = [None, {}, {"w": 1}, {"u": 1}, {"w": 1, "u": 2}, {"u": 2, "w": 3}]


def layers(db, first, tier, rec):
    """The views of the layers of configuration together; the last layer that has the name decides."""
    for choice in itertools.product(range(len(CONTENTS)), repeat=2):
        for last in (None, "w", "u"):
            choice3 = (first,) + choice
            if not rec.state(choice3, last):
                continue
            base = os.path.join(db.base, "l")
            shutil.rmtree(base, ignore_errors=True)
            home, cwd = os.path.join(base, "home"), os.path.join(base, "cwd")
            os.makedirs(home)
            os.makedirs(cwd)
            model, given = {}, []
            for i, c in enumerate(choice3):
                content = CONTENTS[c]
                if content is None:
                    given.append({})
                    continue
                views = []
                for n, k in content.items():
                    text = "select %d as id, %d as n, '%s' as v" % (i, k, n)
                    views.append({"name": n, "query": text})
                    model[n] = text
                given.append({"databases": [{"name": "s", "driver": "sqlite", "database": db.paths["s"], "virtual_views": views}]})
            if not model:
                continue
            json.dump(given[0], open(os.path.join(home, "config.json"), "w"))
            json.dump(given[1], open(os.path.join(cwd, "config.json"), "w"))
            saved, env = os.getcwd(), os.environ.get("SYNCANY_HOME")
            os.environ["SYNCANY_HOME"] = home
            os.chdir(cwd)
            try:
                e = Engine(given[2])
                if last:
                    model[last] = "select 77 as id, 7 as n, 'set' as v"
                    e.run("set @config.databases.s.virtual_views.%s = %s" % (last, quoted(model[last])))
                got = {}
                for n in ("w", "u"):
                    answer = rows(e.query("select id, n, v from s.%s x" % n))
                    got[n] = None if isinstance(answer, Err) else answer
                e.close()
            finally:
                os.chdir(saved)
                os.environ.pop("SYNCANY_HOME")
                if env is not None:
                    os.environ["SYNCANY_HOME"] = env
            rec.transitions += 1
            exp = {n: db.answer(model[n]) if n in model else None for n in ("w", "u")}
            rec.expect("layers %s %s" % (choice3, last), exp, got, {"layers": given, "set": last}, outcome=repr(exp))
