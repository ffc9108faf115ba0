"""C30  A path into a document stands for the value it leads to, in any place of a query.

Every document up to a bound, every spelling of a path, every place a column can take, from every kind of source that keeps documents, run on the real engine; sqlite answers the same query over a table that has the values the paths
lead to (found by a model of paths) as columns.
"""
import gc
import itertools
import json
import os
import sqlite3

from eng import Engine, Err

LEVEL = "model_checking"
BOUND = {
    "quick": "44 documents (every choice of 5 x 8 values of two keys, one nested with lists, and the whole absent, null, a text, a list); 9 paths of keys, indexes and ends of lists in every spelling (quoted name, with a table alias, get_value of "
             "the column, of the name, key by key); every path alone and selected (with 11 slices), 46 query shapes x every path x spelling, every pair of paths in 10 shapes; tables in memory, in a json database and a json file; @batch 0, 1, 2, 7",
    "thorough": "as quick with every shape in every source and @batch, and every pair of spellings of one path in every shape of two"}
ASSUME = ["a key is not asked of a list (which the library maps over the list), except that get_value and names agree on the way", "an equality of a join names a path of the earlier table, not of the joined one (known finding path-join-key)",
          "ORDER BY a path names a selected one", "NULLs are not compared by <> or NOT", "@batch sorts and limits batches: ORDER BY and LIMIT are run without", "values at a path that is compared, ordered or grouped are numbers or texts"]

ABSENT = object()
A_VALUES = [ABSENT, None, 0, 1, 2]
B_VALUES = [ABSENT, None, {}, {"c": 0}, {"c": 5, "l": []}, {"c": 2, "l": [1, 2, 3]}, {"l": [4]}, {"c": 1, "l": [2, 1, 2, 5, 0]}]
PATHS = [("a",), ("b", "c"), ("b", "l", 0), ("b", "l", 1), ("b", "l", -1), ("b", "l", -3), ("z",), ("b", "z"), ("b", "l", 9)]
SLICES = [(0, 2), (1, 3), (0, 1), (-2, 9), (-1, -3, -1), (0, 5, 2), (1, 1), (0, 9), (2, 0), (-3, -1), (4, 0, -2)]


def documents():
    docs = [{k: v for k, v in (("a", a), ("b", b)) if v is not ABSENT} for a, b in itertools.product(A_VALUES, B_VALUES)]
    out = [{"id": i + 1, "o": d, "s": "xyz"[i % 3], "n": i % 4} for i, d in enumerate(docs)]
    for o in (None, {}):
        out.append({"id": len(out) + 1, "o": o, "s": "x", "n": 1})
    out.append({"id": len(out) + 1, "s": "y", "n": 2})
    out.append({"id": len(out) + 1, "o": {"b": {"l": None}}, "s": "y", "n": 2})
    return out


def value(row, path):
    v = row.get("o")
    for step in path:
        if isinstance(step, str):
            if not isinstance(v, dict):
                return None
            v = v.get(step)
        elif isinstance(step, tuple):
            if not isinstance(v, list):
                return None
            v = v[slice(*step)]
        else:
            if not isinstance(v, list) or not -len(v) <= step < len(v):
                return None
            v = v[step]
    return v


def const(step):
    return "'%s'" % step if isinstance(step, str) else "(%s)" % ", ".join(map(str, step)) if isinstance(step, tuple) else str(step)


def name(path):
    return ".".join(["o"] + [s if isinstance(s, str) else ":" + ":".join(map(str, s if isinstance(s, tuple) else (s,))) for s in path])


# how a path is written for a column of the table or alias t (with the dot) or without
def spellings(path, alias=""):
    out = [alias + "`%s`" % name(path), "get_value(%so, '%s')" % (alias, name(path)[2:]), "get_value(%so, %s)" % (alias, ", ".join(const(s) for s in path)), "get_value(%s`%s`)" % (alias, name(path))]
    if len(path) > 1:
        out.append("get_value(%s`%s`, %s)" % (alias, name(path[:1]), ", ".join(const(s) for s in path[1:])))
    return out


DOCS = documents()
U = [(0, "zero"), (1, "one"), (2, "two"), (2, "deux"), (5, "five")]
# {p} is the path, {t} the table; the last of a shape tells whether the order counts
PLAIN = ["select id, {p} as q from {t}", "select id from {t} where {p} = 1", "select id from {t} where {p} > 0", "select id from {t} where {p} >= 1 and {p} < 3", "select id from {t} where {p} in (0, 2)", "select id from {t} where {p} = 1 or n = 3",
         "select id from {t} where {p} between 1 and 2", "select id from {t} where 1 < {p}", "select id from {t} where {p} is null", "select id from {t} where {p} is not null and n > 1", "select id from {t} where {p} = n", "select id from {t} where n < {p}",
         "select id from {t} where {p} + 1 = 2", "select id from {t} where {p} in (select k from u where m <> 'one')", "select id from {t} where {p} = (select max(k) from u)", "select id from {t} where n in (select {p} from {t} where {p} > 0)",
         "select {p} as q, count(*) as c from {t} group by {p}", "select {p} as q, count(*) as c, max(n) as m from {t} where {p} > 0 group by {p}", "select s, count({p}) as c, max({p}) as m from {t} where {p} >= 0 group by s",
         "select {p} as q, s, count(*) as c from {t} group by {p}, s", "select distinct {p} as q from {t}", "select distinct {p} as q, s from {t} where {p} > 0", "select {p} as q, count(*) as c from {t} group by {p} having c > 3",
         "select s, sum({p}) as q from {t} where {p} > 0 group by s having q > 1", "select id, {p} as q from {t} where {p} >= 0 order by q, id", "select id, {p} as q from {t} where {p} >= 0 order by {p} desc, id",
         "select id, {p} as q from {t} where {p} >= 0 order by q desc, id limit 3", "select id, {p} + n as q from {t} where {p} >= 0", "select id, case when {p} = 1 then 'one' when {p} > 1 then 'more' else 'none' end as q from {t}",
         "select id, coalesce({p}, -1) as q from {t}", "select id, row_number() over (partition by {p} order by id) as q from {t}", "select id, sum(n) over (partition by {p}) as q from {t}",
         "select q from (select {p} as q, id from {t}) y where q = 1", "select id from (select id, o from {t} where n > 1) y where {p} = 1", "with y as (select id, o from {t}) select id, {p} as q from y where {p} > 0",
         "select {p} as q from {t} where {p} > 1 union all select k as q from u", "select {p} as q from {t} where {p} > 0 union select k as q from u", "select id, n from {t} where {p} = 1 and s = 'x' limit 2", "select count(*) as c from {t} where {p} = 1",
         "select max({p}) as q from {t} where {p} >= 0", "select id, exists (select k from u u where u.k = 1) as q from {t} where {p} = 2"]
# with the table under the alias x
ALIASED = ["select x.id, {p} as q from {t} x where {p} = 1", "select x.id, y.m from {t} x inner join u y on y.k = {p}", "select x.id, y.m, {p} as q from {t} x left join u y on y.k = {p} where {p} >= 0", "select x.id, y.m from {t} x inner join u y on y.k = x.n where {p} > 0",
           "select y.m, x.id, {p} as q from u y inner join {t} x on x.n = y.k", "select y.m, x.id from u y inner join {t} x on x.n = y.k and {p} = 1", "select y.m, x.id from u y inner join {t} x on x.n = y.k where {p} = 2",
           "select y.m, count(*) as c from {t} x inner join u y on y.k = {p} group by y.m", "select {p} as q, count(*) as c from u y inner join {t} x on x.n = y.k where {p} >= 0 group by {p}",
           "select x.id, (select max(y.m) from u y where y.k = {p}) as q from {t} x where {p} < 2", "select x.id from {t} x where exists (select y.k from u y where y.k = {p})",
           "select y.m, z.m as w, {p} as q from u y inner join {t} x on x.n = y.k inner join u z on z.k = {p}", "select y.m, {p} as q from u y inner join {t} x on x.n = y.k inner join u z on z.k = x.n and {p} > 0",
           "select x.id, {p} + y.k as q from {t} x inner join u y on y.k = x.n where {p} >= y.k", "select y.m, x.id from u y inner join {t} x on x.n = y.k where {p} < y.k"]
PAIRS = ["select id, {p}, {r} from {t}", "select {p}, id, {r}, n from {t} where {p} > 0", "select id, {p} as q, {r} as w from {t}", "select id from {t} where {p} > 0 and {r} > 0", "select id from {t} where {p} = 1 or {r} = 2", "select id from {t} where {p} = {r}", "select {p} as q, {r} as w, count(*) as c from {t} group by {p}, {r}",
         "select id, {p} + {r} as q from {t} where {p} > 0 and {r} > 0", "select id, {p} as q, {r} as w from {t} where {p} >= 0 and {r} >= 0 order by q desc, w, id", "select {p} as q, max({r}) as w from {t} where {r} >= 0 group by {p}"]


class World(object):
    def __init__(self):
        # units of other workers have files of their own
        pd, pf = "pd%d" % os.getpid(), "pf%d" % os.getpid()
        for d in (pd, pf):
            os.makedirs(d, exist_ok=True)
            with open(d + "/t.json", "w") as f:
                json.dump(DOCS, f)
        self.e = Engine({"databases": [{"name": "m", "driver": "memory"}, {"name": "d", "driver": "json", "path": os.path.abspath(pd)}]})
        self.c = sqlite3.connect(":memory:")
        self.e.put("u", [{"k": k, "m": m} for k, m in U])
        self.c.execute("create table u (k, m)")
        self.c.executemany("insert into u values (?, ?)", U)
        self.c.execute("create table t (id, s, n, o, %s)" % ", ".join("p%d" % i for i in range(len(PATHS))))
        self.c.executemany("insert into t values (?, ?, ?, 1%s)" % (", ?" * len(PATHS)), [(d["id"], d["s"], d["n"]) + tuple(value(d, p) for p in PATHS) for d in DOCS])
        self.e.put("t", DOCS)
        self.e.put("t", DOCS, "m")
        self.tables = ["t", "m.t", "d.`t.json`", "`%s/t.json`" % pf]
        self.answers = {}

    def check(self, rec, sql, want, case):
        if not rec.state(sql, case):
            return
        rec.transitions += 1
        ordered = " order by " in sql and "over" not in sql
        if want not in self.answers:
            rows = [tuple(r) for r in self.c.execute(want).fetchall()]
            self.answers[want] = rows if ordered else sorted(rows, key=repr)
        got = self.e.query(sql)
        if not isinstance(got, Err):
            got = [tuple(int(v) if isinstance(v, bool) else v for v in r.values()) for r in got]
            got = got if ordered else sorted(got, key=repr)
        if "group by" not in want and self.answers[want] in ([(None,)], [(0,)]) and "select id" not in want:
            # an aggregate over no rows gives no row here
            return
        limited = " limit " in sql and not ordered
        if limited and not isinstance(got, Err):
            # any rows of those without the limit do
            every = [tuple(r) for r in self.c.execute(want[:want.index(" limit")]).fetchall()]
            rec.expect("%s | %s" % (sql, case), [min(len(every), int(sql.split()[-1])), True], [len(got), all(r in every for r in got)], {"query": sql, "case": case})
            return
        rec.expect("%s | %s" % (sql, case), self.answers[want], got, {"query": sql, "case": case}, outcome=repr(self.answers[want])[:60], sample={"query": sql, "rows": self.answers[want][:5]} if rec.transitions % 301 == 1 else None)

    def close(self):
        self.e.close()


def units(tier):
    return [(w, i, tier) for w, n in (("shapes", len(PLAIN)), ("aliased", len(ALIASED)), ("pairs", len(PATHS)), ("slices", 1), ("literal", 1), ("known", 1)) for i in range(n)]


def explore(unit, rec):
    what, arg, tier = unit
    w = World()
    try:
        {"shapes": shapes, "aliased": shapes, "pairs": pairs, "slices": slices, "literal": literal, "known": known}[what](w, what, arg, tier, rec)
    finally:
        w.close()
        gc.collect()


def batches(w, tier, turn):
    """which sources and batches a case is run in"""
    if tier != "quick":
        return [(t, b) for t in w.tables for b in (0, 1, 2, 7)]
    return [(w.tables[turn % 4], (0, 1, 2, 7)[turn // 4 % 4]), (w.tables[(turn + 1) % 4], 0)]


def shapes(w, what, i, tier, rec):
    shape = (PLAIN if what == "shapes" else ALIASED)[i]
    alias = "" if what == "shapes" else "x."
    turn = i
    for j, path in enumerate(PATHS):
        for spelling in spellings(path, alias):
            # a column compared with the key of a join, or ordered by, is written as a name
            if "order by {p}" in shape and not spelling.endswith("`"):
                continue
            for t, b in batches(w, tier, turn):
                if any(w in shape for w in (" over ", " order by ", " limit ")):
                    b = 0
                w.e.run("set @batch = %d" % b)
                w.check(rec, shape.format(p=spelling, t=t), shape.format(p=alias + "p%d" % j, t="t").replace("select id, o from t", "select * from t"), "@batch=%d" % b)
            turn += 1


def pairs(w, what, i, tier, rec):
    turn = i
    for j, shape in itertools.product(range(len(PATHS)), PAIRS):
        if i == j and ("{p}, {r}" in shape or "{p}, id, {r}" in shape):
            continue
        for a, b in itertools.product(range(4), repeat=2) if tier != "quick" else ((turn % 4, turn // 4 % 4), ((turn + 1) % 4, turn % 4)):
            p, r = spellings(PATHS[i])[a], spellings(PATHS[j])[b]
            for t, batch in batches(w, "quick", turn):
                batch = 0 if " order by " in shape else batch
                w.e.run("set @batch = %d" % batch)
                w.check(rec, shape.format(p=p, r=r, t=t), shape.format(p="p%d" % i, r="p%d" % j, t="t"), "@batch=%d" % batch)
            turn += 1


def slices(w, what, i, tier, rec):
    """Every path with every slice of the list, and every whole part of a document, selected."""
    for path in PATHS + [("b",), ("b", "l")] + [("b", "l", s) for s in SLICES]:
        want = [value(d, path) for d in DOCS]
        for spelling in spellings(path) + spellings(path, "x."):
            for t in w.tables:
                for sql in ("select id, %s as q from %s x" % (spelling, t), "select n, id, %s as q, s from %s x where id > 0" % (spelling, t), "select id, q from (select id, %s as q from %s x) y" % (spelling, t)):
                    if "x." not in spelling:
                        sql = sql.replace(" x", "")
                    if not rec.state(sql):
                        continue
                    rec.transitions += 1
                    got = w.e.query(sql)
                    rec.expect(sql, want, got if isinstance(got, Err) else [r["q"] for r in sorted(got, key=lambda r: r["id"])], {"query": sql}, outcome=repr(want)[:60])


def literal(w, what, i, tier, rec):
    """A column whose own name has a dot."""
    rows = [(i + 1, v, i % 2) for i, v in enumerate((3, 1, 2, 1, 0))]
    w.e.put("l", [{"id": i, "a.b": v, "n": n} for i, v, n in rows])
    w.c.execute("create table l (id, v, n)")
    w.c.executemany("insert into l values (?, ?, ?)", rows)
    for sql in ["select id, {p} as q from l", "select id from l where {p} = 1", "select id from l where {p} > 1 and n = 0", "select id from l where {p} in (1, 3)", "select {p} as q, count(*) as c from l group by {p}", "select id, {p} as q from l order by q desc, id",
                "select id, {p} as q from l order by {p}, id", "select x.id, y.m from l x inner join u y on y.k = {p}", "select max({p}) as m from l", "select distinct {p} as q from l"]:
        alias = "x." if " x " in sql else ""
        w.check(rec, sql.format(p=alias + "`a.b`"), sql.format(p=alias + "v"), "")


def known(w, what, i, tier, rec):
    sql = "select y.m, x.id from u y inner join t x on x.`o.a` = y.k where y.k = 2"
    rec.state(sql)
    rec.transitions += 1
    got = w.e.query(sql)
    want = sorted(tuple(r) for r in w.c.execute("select y.m, x.id from u y inner join t x on x.p0 = y.k where y.k = 2").fetchall())
    rows = got if isinstance(got, Err) else sorted(tuple(r.values()) for r in got)
    if rows == want:
        rec.ok(repr(rows))
    else:
        rec.bad("path-join-key" if rows == [] else "path-join-key-other", "expected %s, got %s" % (want, rows), {"sql": sql})
