"""C16  HAVING keeps exactly the result rows that satisfy its condition.

Every condition of the bounded grammar is executed over a table that holds every group state of the bound, under every shape of
query, and the rows that come back are compared with the rows of the model that satisfy the condition.
"""
import itertools
import re

from eng import Engine, Err, bag, tup

LEVEL = "model_checking"
BOUND = {
    "quick": "all trees NOT?(atom), atom AND/OR atom over 70 atoms (comparisons, IN, BETWEEN, LIKE, IS NULL, arithmetic, IF/CASE/IFNULL, aggregates named by alias or written out, scalar and IN "
             "subqueries) and 3-atom trees with NOT and parentheses over 12 atoms, on a table whose groups are all multisets of 1-2 rows over 6 rows (27 groups) plus 3 of 3 rows; 11 query shapes "
             "(grouped, grouped in batches of 2 and 5, filtered, ordered and cut, derived, joined, SELECT DISTINCT, windows, not grouped, one group for all)",
    "thorough": "as quick, every 2-atom tree in the shapes grouped, batched by 2, derived and ordered, and 3-atom trees over 20 atoms"}
ASSUME = ["HAVING sees the columns of the result; what is not among them must be refused, as documented",
          "comparisons of NULL other than IS NULL / IFNULL / COALESCE are not claimed"]

CELLS = [(1, "x"), (1, "xy"), (2, "x"), (2, "yx"), (None, "x"), (4, "z%")]
GROUPS = [g for n in (1, 2) for g in itertools.combinations_with_replacement(CELLS, n)] + [
    ((1, "x"), (1, "xy"), (2, "yx")), ((2, "x"), (None, "x"), (4, "z%")), ((1, "x"), (1, "x"), (1, "x"))]
ROWS = []
# the rows of a group are spread over the table, so that every batch holds pieces of many groups
for i in range(3):
    for k, g in enumerate(GROUPS):
        if i < len(g):
            ROWS.append({"id": len(ROWS), "k": k % 5, "g": k, "v": g[i][0], "s": g[i][1]})
K = [k % 5 for k in range(len(GROUPS))]
U = [{"id": i, "x": x} for i, x in enumerate((1, 2, 5, 2))]
COLS = ("g", "k", "n", "t", "m", "w")


def model(rows):
    groups = {}
    for r in rows:
        groups.setdefault(r["g"], []).append(r)
    out = []
    for g, rs in groups.items():
        vs = [r["v"] for r in rs if r["v"] is not None]
        out.append({"g": g, "k": K[g], "n": len(rs), "t": sum(vs), "m": max(r["s"] for r in rs), "w": min(vs) if vs else None})
    return out


AGG = {"n": "count(*)", "t": "sum(v)", "m": "max(s)", "w": "min(v)"}
MODEL = model(ROWS)


def like(p):
    rx = re.compile("^" + "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in p) + "$", re.S)
    return lambda x: bool(rx.match(str(x)))


def atoms():
    import operator as o
    ops = [("=", o.eq), ("!=", o.ne), ("<", o.lt), ("<=", o.le), (">", o.gt), (">=", o.ge)]
    out = []
    for s, f in ops:
        out.append(("n %s 2" % s, lambda r, f=f: f(r["n"], 2)))
        out.append(("2 %s t" % s, lambda r, f=f: f(2, r["t"])))
        out.append(("t %s k" % s, lambda r, f=f: f(r["t"], r["k"])))
        out.append(("n + 1 %s k" % s, lambda r, f=f: f(r["n"] + 1, r["k"])))
        out.append(("k %s t - n" % s, lambda r, f=f: f(r["k"], r["t"] - r["n"])))
        out.append(("m %s 'xy'" % s, lambda r, f=f: f(r["m"], "xy")))
    for p in ("x", "x%", "%x", "_x", "%y%", "x_", "z%", "%", "y%x"):
        out.append(("m like '%s'" % p, lambda r, f=like(p): f(r["m"])))
    out += [
        ("t <> 3", lambda r: r["t"] != 3), ("t like '1%'", lambda r: str(r["t"]).startswith("1")),
        ("m not like 'x%'", lambda r: not r["m"].startswith("x")),
        ("n in (1, 3)", lambda r: r["n"] in (1, 3)), ("t not in (1, 2)", lambda r: r["t"] not in (1, 2)), ("n in (k, 3)", lambda r: r["n"] in (r["k"], 3)),
        ("2 in (n, t)", lambda r: 2 in (r["n"], r["t"])), ("m in ('x', 'yx')", lambda r: r["m"] in ("x", "yx")), ("t in (2)", lambda r: r["t"] == 2),
        ("t in (1 + 1, 3)", lambda r: r["t"] in (2, 3)),
        ("t between 2 and 3", lambda r: 2 <= r["t"] <= 3), ("t not between 2 and 3", lambda r: not 2 <= r["t"] <= 3), ("k between n and t", lambda r: r["n"] <= r["k"] <= r["t"]),
        ("w is null", lambda r: r["w"] is None), ("w is not null", lambda r: r["w"] is not None), ("ifnull(w, 7) = 7", lambda r: r["w"] is None),
        ("coalesce(w, k) = 4", lambda r: (r["k"] if r["w"] is None else r["w"]) == 4),
        ("if(n > 1, k, 9) = 3", lambda r: r["n"] > 1 and r["k"] == 3), ("case when n = 2 then k else 0 end = 2", lambda r: r["n"] == 2 and r["k"] == 2),
        ("length(m) = 1", lambda r: len(r["m"]) == 1), ("concat(m, 'q') = 'xq'", lambda r: r["m"] == "x"), ("t % 2 = 1", lambda r: r["t"] % 2 == 1),
        ("t * 2 = n + k", lambda r: r["t"] * 2 == r["n"] + r["k"]), ("-n = -2", lambda r: r["n"] == 2),
        ("n = (select 2)", lambda r: r["n"] == 2), ("t in (select x from u)", lambda r: r["t"] in (1, 2, 5)), ("t not in (select x from u)", lambda r: r["t"] not in (1, 2, 5)),
        ("t > (select max(x) from u where x < 5)", lambda r: r["t"] > 2), ("1 = 1", lambda r: True), ("1 = 0", lambda r: False),
    ]
    return out


ATOMS = atoms()
BY = dict(ATOMS)
SMALL = ["n = 2", "t != 1" if "t != 1" in BY else "t <> 3", "n > 2", "2 >= t", "t = k", "m like 'x%'", "m like '%x'", "w is null", "n in (1, 3)", "t between 2 and 3",
         "k between n and t", "t in (select x from u)"]
LARGE = SMALL + ["m like '_x'", "t not in (1, 2)", "n + 1 < k", "m = 'xy'", "if(n > 1, k, 9) = 3", "w is not null", "t > (select max(x) from u where x < 5)", "n in (k, 3)"]

SHAPES = ["group", "batch2", "batch5", "where", "order", "derived", "insert", "distinct", "union", "join", "aggregate"]


def written_out(cond):
    """The condition with aliases replaced by the aggregate they name."""
    return re.sub(r"(?<![\w'%.])([ntmw])(?![\w'(%])", lambda x: AGG[x.group(1)], cond)


def shape(name, cond, f):
    """-> setup, sql, cols, expected rows, ordered"""
    keep = [r for r in MODEL if f(r)]
    body = "g, k, count(*) as n, sum(v) as t, max(s) as m, min(v) as w from %s%s group by g, k having %s"
    rows = [tuple(r[c] for c in COLS) for r in keep]
    if name == "group":
        return "select " + body % ("t", "", cond), COLS, rows, False
    if name in ("batch2", "batch5"):
        return "select " + body % ("m.t", "", cond), COLS, rows, False
    if name == "aggregate":
        return "select " + body % ("t", "", written_out(cond)), COLS, rows, False
    if name == "where":
        sub = model([r for r in ROWS if r["id"] % 3 != 1])
        return "select " + body % ("t", " where id % 3 != 1", cond), COLS, [tuple(r[c] for c in COLS) for r in sub if f(r)], False
    if name == "order":
        rows.sort(key=lambda r: (-r[3], r[0]))
        return "select " + body % ("t", "", cond) + " order by t desc, g limit 4", COLS, rows[:4], True
    if name == "derived":
        return "select q.g as g, q.n as n from (select %s) q where q.k > 0" % (body % ("t", "", cond)), ("g", "n"), [(r["g"], r["n"]) for r in keep if r["k"] > 0], False
    if name == "insert":
        return "select " + body % ("t", "", cond), COLS, rows, False
    if name == "distinct":
        return ("select distinct " + body % ("t", "", cond)).replace("g, k, count", "k, count", 1).replace("group by g, k", "group by g, k"), COLS[1:], \
            [x for i, x in enumerate([r[1:] for r in rows]) if x not in [r[1:] for r in rows][:i]], False
    if name == "union":
        return "select g, n from (select %s) q union all select id, x from u where x > 2" % (body % ("t", "", cond)), ("g", "n"), [(r["g"], r["n"]) for r in keep] + [(2, 5)], False
    if name == "join":
        # the grouped rows of a join: every row of t meets the row of u whose id is its k
        xs = {u["id"]: u["x"] for u in U}
        return "select a.g as g, a.k as k, count(*) as n, sum(a.v) as t, max(a.s) as m, min(a.v) as w, b.x as x from t a inner join u b on a.k = b.id " \
               "group by a.g, a.k, b.x having %s" % cond, COLS + ("x",), [tuple(r[c] for c in COLS) + (xs[r["k"]],) for r in keep if r["k"] in xs], False


# queries that are not grouped: HAVING filters their rows
def plain():
    rows = ROWS
    P = [("id < 9", lambda r: r["id"] < 9), ("ifnull(v, 0) = 2", lambda r: r["v"] == 2), ("s like 'x%'", lambda r: r["s"].startswith("x")), ("v is null", lambda r: r["v"] is None),
         ("s != 'x'", lambda r: r["s"] != "x"), ("id in (k, 3, 8)", lambda r: r["id"] in (r["k"], 3, 8)), ("id between k and 7", lambda r: r["k"] <= r["id"] <= 7),
         ("k % 2 = 1", lambda r: r["k"] % 2 == 1), ("ifnull(v, 4) = 4", lambda r: r["v"] in (None, 4)), ("k in (select x from u)", lambda r: r["k"] in (1, 2, 5))]
    for (c1, f1), (c2, f2) in itertools.product(P, P):
        for cond, f in (("%s and %s" % (c1, c2), lambda r: f1(r) and f2(r)), ("%s or not (%s)" % (c1, c2), lambda r: f1(r) or not f2(r))):
            keep = [r for r in rows if f(r)]
            yield "select id, k, v, s from t having %s" % cond, ("id", "k", "v", "s"), [(r["id"], r["k"], r["v"], r["s"]) for r in keep], False
            yield "select * from t where g != 4 having %s" % cond, ("id", "k", "g", "v", "s"), [tuple(r.values()) for r in keep if r["g"] != 4], False
            yield "select id, k, v, s from t having %s order by id desc limit 3 offset 1" % cond, ("id", "k", "v", "s"), \
                [(r["id"], r["k"], r["v"], r["s"]) for r in reversed(keep)][1:4], True
            yield "select distinct id, k, v, s from t having %s" % cond, ("id", "k", "v", "s"), [(r["id"], r["k"], r["v"], r["s"]) for r in keep], False
    num = {}
    for r in rows:
        num.setdefault(r["g"], []).append(r)
    for n in (1, 2, 3):
        for op, f in (("=", lambda a, b: a == b), (">", lambda a, b: a > b), ("!=", lambda a, b: a != b)):
            ex = [(r["id"], i + 1, len(rs)) for g, rs in num.items() for i, r in enumerate(rs)]
            base = "select id, row_number() over (partition by g order by id) as rn, count(*) over (partition by g) as c from t having "
            yield base + "rn %s %d" % (op, n), ("id", "rn", "c"), [x for x in ex if f(x[1], n)], False
            yield base + "c %s %d and rn = 1" % (op, n), ("id", "rn", "c"), [x for x in ex if f(x[2], n) and x[1] == 1], False
            yield base + "rn = c or c %s %d" % (op, n), ("id", "rn", "c"), [x for x in ex if x[1] == x[2] or f(x[2], n)], False
    total, n = sum(r["v"] or 0 for r in rows), len(rows)
    for c in (total - 1, total, total + 1):
        for op, f in (("=", lambda a, b: a == b), (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b)):
            for lhs in ("t", "sum(v)"):
                yield "select count(*) as n, sum(v) as t from t having %s %s %d" % (lhs, op, c), ("n", "t"), [(n, total)] if f(total, c) else [], False


# what the result does not hold cannot be filtered by: the statement has to be refused
REFUSED = ["v > 1", "s = 'x'", "id = 3", "max(v) > 1", "min(s) = 'x'", "count(distinct v) = 1", "avg(v) > 1", "sum(v + 1) > 2", "n = 2 and v = 1", "not (n = 2 or id = 1)",
           "if(v = 1, 1, 0) = 1", "n in (v, 2)", "2 in (n, v)", "t > v", "n between v and 3", "concat(m, s) = 'xx'", "sum(v) + max(v) > 2", "m like s"]


def trees(unit):
    kind, arg = unit
    if kind == "one":
        for s, f in ATOMS:
            yield s, f
            yield "(%s)" % s, f
            yield "not (%s)" % s, (lambda r, f=f: not f(r))
            yield "not not (%s)" % s, f
    elif kind == "two":
        s1, f1 = ATOMS[arg]
        for s2, f2 in ATOMS:
            yield "%s and %s" % (s1, s2), lambda r: f1(r) and f2(r)
            yield "%s or %s" % (s1, s2), lambda r: f1(r) or f2(r)
    elif kind == "three":
        names, i = arg
        names = SMALL if names == "small" else LARGE
        s1 = names[i]
        f1 = BY[s1]
        for s2, s3 in itertools.product(names, names):
            f2, f3 = BY[s2], BY[s3]
            yield "%s and %s or %s" % (s1, s2, s3), lambda r: (f1(r) and f2(r)) or f3(r)
            yield "%s or %s and %s" % (s1, s2, s3), lambda r: f1(r) or (f2(r) and f3(r))
            yield "(%s or %s) and %s" % (s1, s2, s3), lambda r: (f1(r) or f2(r)) and f3(r)
            yield "not (%s and %s) and %s" % (s1, s2, s3), lambda r: not (f1(r) and f2(r)) and f3(r)
            yield "%s and not (%s or not %s)" % (s1, s2, "(%s)" % s3), lambda r: f1(r) and not (f2(r) or not f3(r))


def units(tier):
    out = [("one", s) for s in SHAPES] + [("plain", None), ("refused", None)] + [("two", i) for i in range(len(ATOMS))]
    names = "small" if tier == "quick" else "large"
    out += [("three", (names, i)) for i in range(len(SMALL if tier == "quick" else LARGE))]
    return [u + (tier,) for u in out]


def explore(unit, rec):
    kind, arg, tier = unit
    e = Engine({"databases": [{"name": "m", "driver": "memory"}]})
    e.put("t", ROWS)
    e.put("t", ROWS, db="m")
    e.put("u", U)
    n = 0
    tables = {"t": ROWS, "u": U}

    def one(sql, cols, expected, ordered, batch=0):
        rec.transitions += len(ROWS)
        if batch:
            e.run("set @batch=%d" % batch)
        got = e.query(sql)
        if batch:
            e.run("set @batch=0")
        if isinstance(got, Err):
            rec.expect(sql, expected, got, {"tables": tables, "batch": batch, "sql": sql})
            return
        got = tup(got, cols)
        a, b = (got, expected) if ordered else (bag(got), bag(expected))
        rec.expect("%s batch=%d" % (sql, batch), b, a, {"tables": tables, "batch": batch, "sql": sql}, outcome=len(expected),
                   sample={"sql": sql[-90:], "rows": len(expected)} if n % 199 == 3 else None)

    if kind == "plain":
        for sql, cols, expected, ordered in plain():
            if rec.state(sql):
                n += 1
                one(sql, cols, expected, ordered)
                if "limit" not in sql and " over " not in sql and "from u" not in sql:
                    one(sql.replace("from t", "from m.t"), cols, expected, ordered, 4)
    elif kind == "refused":
        for cond in REFUSED:
            for place in ("select g, k, count(*) as n, sum(v) as t, max(s) as m from t group by g, k having %s", "select k, count(*) as n, sum(v) as t, max(s) as m from t group by k having %s order by k",
                          "select count(*) as n, sum(v) as t, max(s) as m from t having %s"):
                sql = place % cond
                if rec.state(sql):
                    got = e.query(sql)
                    if isinstance(got, Err):
                        rec.ok("refused")
                    else:
                        rec.bad(sql, "a condition on a value the result does not hold was accepted and returned %r" % (got[:3],), {"tables": tables, "sql": sql})
    else:
        for cond, f in trees(unit[:2]):
            n += 1
            if kind == "one":
                shapes = [arg]
            elif tier == "quick":
                shapes = [SHAPES[(n + (arg if isinstance(arg, int) else arg[1])) % len(SHAPES)]]
            else:
                shapes = ["group", "batch2", "derived", "order", SHAPES[n % len(SHAPES)]]
            for name in dict.fromkeys(shapes):
                if not rec.state(name, cond):
                    continue
                sql, cols, expected, ordered = shape(name, cond, f)
                if name == "insert":
                    e.run("insert into `o` " + sql)
                    rec.transitions += len(ROWS)
                    got = e.rows("o")
                    e.run("delete from `o`")
                    rec.expect(sql, bag(expected), bag(tup(got, cols)), {"tables": tables, "sql": "insert into `o` " + sql}, outcome=len(expected))
                    continue
                one(sql, cols, expected, ordered, 2 if name == "batch2" else 5 if name == "batch5" else 0)
    e.close()
