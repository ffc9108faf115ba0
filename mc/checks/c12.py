"""C12  UNION / UNION ALL: rows of all selects, columns by position, duplicates, order and limit of the whole."""
import itertools

from eng import Engine, Err, bag, key, tup
from q import mk, rnd, short_tables

LEVEL = "model_checking"
BOUND = {t: "every ordered pair of 20 two-column selects (constants, filters, swapped and equal and unnamed columns, grouping, DISTINCT, windows, joins, derived tables, CTEs, ordered and "
            "limited parenthesised selects, nested unions) x UNION / UNION ALL; every chain of 3%s of a core of 6 selects x every combination of operators; x endings (ORDER BY, LIMIT, OFFSET) "
            "x places (SELECT, INSERT with and without column list, derived table, CTE, IN, twice in one statement) x table contents incl. NULLs, duplicates and empty tables, batched sources" % (
                "" if t == "quick" else " and 4") for t in ("quick", "thorough")}
ASSUME = ["rows without ORDER BY are compared as a multiset", "SELECT * in a union contributes columns by name and keeps duplicates (not claimed)"]


def T(s):
    return s["t"]


def U(s):
    return s["u"]


def nk(r):
    return tuple(key(x) for x in r)


def dedup(rows):
    out = []
    for r in rows:
        if r not in out:
            out.append(r)
    return out


def grouped(rows, k, f):
    g = {}
    for r in rows:
        g.setdefault(r[k], []).append(r)
    return [(k, f(v)) for k, v in g.items()]


# (sql, names, rows); the names are those of the select itself
ARMS = [
    ("select a, b from t", ("a", "b"), lambda s: [(r["a"], r["b"]) for r in T(s)]),
    ("select b, a from t", ("b", "a"), lambda s: [(r["b"], r["a"]) for r in T(s)]),
    ("select k, v from u", ("k", "v"), lambda s: [(r["k"], r["v"]) for r in U(s)]),
    ("select v as a, k as b from u where k >= 1", ("a", "b"), lambda s: [(r["v"], r["k"]) for r in U(s) if r["k"] is not None and r["k"] >= 1]),
    ("select v as b, k as a from u", ("b", "a"), lambda s: [(r["v"], r["k"]) for r in U(s)]),
    ("select 1, 2", ("1", "2"), lambda s: [(1, 2)]),
    ("select 2 as z, null as a", ("z", "a"), lambda s: [(2, None)]),
    ("select a, 1 from t", ("a", "1"), lambda s: [(r["a"], 1) for r in T(s)]),
    ("select id + 1, a from t", ("id + 1", "a"), lambda s: [(r["id"] + 1, r["a"]) for r in T(s)]),
    ("select a as x, b as y from t where b = 1 or a = 1", ("x", "y"), lambda s: [(r["a"], r["b"]) for r in T(s) if r["b"] == 1 or r["a"] == 1]),
    ("select a, count(*) from t group by a", ("a", "COUNT(*)"), lambda s: grouped(T(s), "a", len)),
    ("select v as b, max(id) as a from u group by v", ("b", "a"), lambda s: grouped(U(s), "v", lambda v: max(r["id"] for r in v))),
    ("select distinct a, b from t", ("a", "b"), lambda s: dedup([(r["a"], r["b"]) for r in T(s)])),
    ("select row_number() over (order by id) as b, a from t", ("b", "a"), lambda s: [(i + 1, r["a"]) for i, r in enumerate(T(s))]),
    ("select t.a as v, u.v as b from t t inner join u u on u.id = t.id", ("v", "b"),
     lambda s: [(r["a"], x["v"]) for r in T(s) for x in U(s) if x["id"] == r["id"]]),
    ("select q.w as w, q.a as a from (select b as w, a from t) q", ("w", "a"), lambda s: [(r["b"], r["a"]) for r in T(s)]),
    ("(select a, b from t order by id desc limit 1)", ("a", "b"), lambda s: [(r["a"], r["b"]) for r in T(s)[-1:]]),
    ("(select k, v from u order by id limit 1 offset 1)", ("k", "v"), lambda s: [(r["k"], r["v"]) for r in U(s)[1:2]]),
    ("(select b, a from t union select v, k from u)", ("b", "a"), lambda s: dedup([(r["b"], r["a"]) for r in T(s)] + [(r["v"], r["k"]) for r in U(s)])),
    ("(select 1 as p, 2 as q union all select k, v from u)", ("p", "q"), lambda s: [(1, 2)] + [(r["k"], r["v"]) for r in U(s)]),
]
CORE = [0, 1, 3, 6, 11, 16]
OPS = ("union all", "union")
SETUPS = [
    {"t": mk([(0, 0), (0, 0), (1, 0), (0, 1)], ("a", "b")), "u": mk([(1, 0), (0, 1), (0, 1)], ("k", "v"))},
    {"t": mk([(1, 2), (2, 1), (1, None), (1, None)], ("a", "b")), "u": mk([(None, 1), (1, 2), (2, 2)], ("k", "v"))},
    {"t": [], "u": mk([(1, 2), (1, 2)], ("k", "v"))},
    {"t": mk([(2, 3)], ("a", "b")), "u": []},
]
ENDS = [("", None, 0), (" order by {0}, {1} desc", None, 0), (" order by {1} desc, {0} desc limit 2", 2, 0), (" order by {0} desc, {1} limit 2 offset 1", 2, 1), (" limit 3", 3, 0)]


def q(n):
    return "`%s`" % n if not n.isidentifier() else n


def concat(parts, ops):
    acc = list(parts[0])
    for op, p in zip(ops, parts[1:]):
        acc = acc + list(p)
        if op == "union":
            acc = dedup(acc)
    return acc


def srt(rows, keys):
    for i, desc in reversed(keys):
        rows = sorted(rows, key=lambda r: key(r[i]), reverse=desc)
    return rows


def ended(rows, end):
    e, lim, off = ENDS[end]
    if end == 1:
        rows = srt(rows, [(0, False), (1, True)])
    if end == 2:
        rows = srt(rows, [(1, True), (0, True)])
    if end == 3:
        rows = srt(rows, [(0, True), (1, False)])
    return rows[off:off + lim] if lim else rows


def sql_of(arms, ops, end):
    names = ARMS[arms[0]][1]
    s = ARMS[arms[0]][0]
    for op, i in zip(ops, arms[1:]):
        s += " %s %s" % (op, ARMS[i][0])
    return s + ENDS[end][0].format(q(names[0]), q(names[1]))


PLACES = ["select", "insert", "columns", "derived", "cte", "in", "sum", "twice"]


def check(rec, e, s, arms, ops, end, place, batch=None):
    names = ARMS[arms[0]][1]
    if end and ARMS[arms[-1]][0][0] == "(":
        return      # refused by the parser
    if len(set(names)) != 2 or end in (1, 2, 3) and not all(n.isidentifier() for n in names):
        return
    sql = sql_of(arms, ops, end)
    full = concat([ARMS[i][2](s) for i in arms], ops)
    expected = ended(full, end)
    ordered, cols = end in (1, 2, 3), names
    script, out = None, "__q"
    if place == "select":
        script = "insert into `__q` " + sql
    elif place == "insert":
        out = "o"
        script = "insert into o " + sql
    elif place == "columns":
        out, cols = "o", ("c1", "c2")
        script = "insert into o (c1, c2) " + sql
        ordered = False
    elif place == "derived":
        script = "insert into `__q` select q.%s as x, q.%s as y from (%s) q" % (q(names[0]), q(names[1]), sql)
        cols, ordered = ("x", "y"), False
    elif place == "cte":
        script = "insert into `__q` with c as (%s) select c.%s as x, c.%s as y from c c" % (sql, q(names[0]), q(names[1]))
        cols, ordered = ("x", "y"), False
    elif place == "sum":
        script = "insert into `__q` select q.%s as x, count(*) as y from (%s) q group by q.%s" % (q(names[0]), sql, q(names[0]))
        cols, ordered = ("x", "y"), False
        g = {}
        for r in expected:
            g[r[0]] = g.get(r[0], 0) + 1
        expected = list(g.items())
    elif place == "twice":
        if ENDS[end][1] and end != 2:
            return
        sub = [(n, q(n)) for n in names]
        script = "insert into `__q` select x.%s as x, x.%s as y from (%s) x union all select z.%s, z.%s from (%s) z" % (sub[0][1], sub[1][1], sql, sub[0][1], sub[1][1], sql)
        cols, ordered = ("x", "y"), False
        expected = expected + expected
    elif place == "in":
        if ENDS[end][1]:
            return
        script = "insert into `__q` select id as x, a as y from t where a in (select q.%s from (%s) q)" % (q(names[0]), sql)
        cols, ordered = ("x", "y"), False
        vals = [r[0] for r in expected]
        expected = [(r["id"], r["a"]) for r in T(s) if r["a"] in vals]
        if None in vals or any(r["a"] is None for r in T(s)):
            return
    if batch:
        script = "set @batch = %d; %s; set @batch = 0" % (batch, script.replace(" t ", " m.t ").replace(" from t", " from m.t").replace("m.m.", "m.").replace("from u", "from m.u").replace("join u ", "join m.u "))
    if not rec.state(script, repr(s)):
        return
    rec.transitions += len(arms)
    err = e.run(script)
    got = err if err is not None else rnd(tup(e.rows(out), cols))
    e.put(out, [])
    expected = rnd([tuple(r) for r in expected])
    k = "%s | %s" % (script, short_tables(s))
    case = {"tables": s, "sql": script, "cols": cols}
    if end == 4 and not isinstance(got, Err) and place not in ("sum", "twice"):
        # LIMIT without ORDER BY: any rows of the full result, the right number of them
        rest = rnd([tuple(r) for r in full])
        good = len(got) == len(expected)
        for r in got:
            if r in rest:
                rest.remove(r)
            else:
                good = False
        if good:
            rec.ok((len(got), place))
        else:
            rec.bad(k, "expected %d of %r, got %r" % (len(expected), bag(full), got), case)
        return
    if end == 4 and place in ("sum", "twice"):
        return
    if not ordered:
        got, expected = bag(got), bag(expected)
    rec.expect(k, expected, got, case, sample={"tables": short_tables(s), "sql": script, "rows": repr(got)[:160]})


def units(tier):
    out = [("pair", i, tier) for i in range(len(ARMS))]
    out += [("chain", c, tier) for c in itertools.product(CORE, repeat=2)]
    return out + [("refused", 0, tier)]


REFUSED = ["select a from t intersect select k from u", "select a from t except select k from u", "select a from t union all select k, v from u", "select a, b from t union select k from u",
           "select a from t union all select k from u intersect select 1", "select x.a from (select a from t except select 1) x"]


def load(e, s):
    e.clear()
    for db in ("--", "m"):
        for n in ("t", "u"):
            e.put(n, s[n], db)


def explore(unit, rec):
    kind, i, tier = unit
    e = Engine({"databases": [{"name": "m", "driver": "memory"}]})
    if kind == "refused":
        load(e, SETUPS[0])
        for sql in REFUSED:
            rec.state(sql)
            rec.transitions += 1
            got = e.query(sql)
            if isinstance(got, Err):
                rec.ok(("refused", got.name), {"sql": sql})
            else:
                rec.bad(sql, "expected a refusal, got %r" % (got,), {"tables": SETUPS[0], "sql": sql})
        e.close()
        return
    for s in SETUPS:
        load(e, s)
        if kind == "pair":
            for j in range(len(ARMS)):
                for op in OPS:
                    for end in range(len(ENDS)):
                        check(rec, e, s, (i, j), (op,), end, "select")
                    for place in PLACES[1:]:
                        for end in (0, 2) if tier == "quick" else range(len(ENDS)):
                            check(rec, e, s, (i, j), (op,), end, place)
                    if i not in (16, 17) and j not in (16, 17):
                        for b in ((1,) if tier == "quick" else (1, 2, 3)):
                            check(rec, e, s, (i, j), (op,), 0, "select", b)
        else:
            for n in (1,) if tier == "quick" else (1, 2):
                for more in itertools.product(CORE, repeat=n):
                    for ops in itertools.product(OPS, repeat=n + 1):
                        for end in (0, 2) if tier == "quick" else range(4):
                            check(rec, e, s, i + more, ops, end, "select")
                        if n == 1:
                            check(rec, e, s, i + more, ops, 0, "derived")
    e.close()
