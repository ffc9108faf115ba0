"""C03  WHERE keeps exactly the rows whose values satisfy the predicate.

Every predicate tree of the bounded grammar is executed on a table holding every combination of column values
(so one execution decides the predicate on all row states), and compared row by row with the oracle.
"""
import itertools
import operator

from eng import Engine, Err

LEVEL = "model_checking"
BOUND = {"quick": "all predicate trees NOT?(atom), atom AND/OR atom over 75 atoms, 3-atom trees over 13 atoms with NOT, all AND chains of 3 conditions on one column out of 24, on a table with all "
                  "36 combinations of (a,b,s,n); 3 sources (memory, aliased memory, derived table)",
         "thorough": "as quick with 3-atom trees over 22 atoms and 4-atom trees over 7 atoms"}
ASSUME = ["comparison of a NULL cell by <,<=,>,>=,!= and NOT over NULL is driver dependent in this engine and is not claimed: column n "
          "(nullable) is only used in =, IN, IS [NOT] NULL, IFNULL and COALESCE atoms that are not negated"]

OPS = {"=": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "<>": operator.ne}
ROWS = [{"id": i, "a": a, "b": b, "s": s, "n": n} for i, (a, b, (s, n)) in enumerate(itertools.product(
    (1, 2, 3), (1, 2, 3), (("x", None), ("xy", 1), ("yx", 2), ("z%", None))))]


def atoms():
    out = []
    for op, f in OPS.items():
        for c in (1, 2):
            out.append(("a %s %d" % (op, c), lambda r, f=f, c=c: f(r["a"], c)))
        if op == "<>":
            continue
        out.append(("2 %s b" % op, lambda r, f=f: f(2, r["b"])))
        out.append(("a %s b" % op, lambda r, f=f: f(r["a"], r["b"])))
        out.append(("b %s 1 + 1" % op, lambda r, f=f: f(r["b"], 2)))
        out.append(("a + 1 %s b" % op, lambda r, f=f: f(r["a"] + 1, r["b"])))
        out.append(("a %s b - 1" % op, lambda r, f=f: f(r["a"], r["b"] - 1)))
        out.append(("s %s 'xy'" % op, lambda r, f=f: f(r["s"], "xy")))
    out += [
        ("b = 2", lambda r: r["b"] == 2), ("b != 2", lambda r: r["b"] != 2), ("s like '_y'", lambda r: r["s"] == "xy"),
        ("a in (1, 3)", lambda r: r["a"] in (1, 3)), ("a in (2)", lambda r: r["a"] == 2), ("b in (1, 2)", lambda r: r["b"] in (1, 2)),
        ("a not in (1, 3)", lambda r: r["a"] == 2), ("a in (b, 3)", lambda r: r["a"] in (r["b"], 3)),
        ("2 in (a, b)", lambda r: 2 in (r["a"], r["b"])), ("a in (1 + 1, 3)", lambda r: r["a"] in (2, 3)),
        ("s in ('x', 'yx')", lambda r: r["s"] in ("x", "yx")), ("s not in ('x')", lambda r: r["s"] != "x"),
        ("a between 1 and 2", lambda r: 1 <= r["a"] <= 2), ("a not between 2 and 3", lambda r: r["a"] == 1),
        ("b between a and 3", lambda r: r["a"] <= r["b"] <= 3), ("a is not null", lambda r: True), ("a is null", lambda r: False),
        ("s like 'x%'", lambda r: r["s"].startswith("x")), ("s like '%x'", lambda r: r["s"].endswith("x")),
        ("s like '%y%'", lambda r: "y" in r["s"]), ("s not like 'x%'", lambda r: not r["s"].startswith("x")),
        ("s like 'xy'", lambda r: r["s"] == "xy"),
        ("if(a > 1, b, 3) = 3", lambda r: (r["b"] if r["a"] > 1 else 3) == 3),
        ("case when a = 1 then b when a = 2 then 2 else 0 end = 2",
         lambda r: (r["b"] if r["a"] == 1 else 2 if r["a"] == 2 else 0) == 2),
        ("length(s) = 1", lambda r: len(s_(r)) == 1), ("concat(s, 'x') = 'yxx'", lambda r: r["s"] == "yx"),
        ("a * b % 2 = 0", lambda r: r["a"] * r["b"] % 2 == 0),
    ]
    return out


def s_(r):
    return r["s"]


NULLABLE = [
    ("n = 1", lambda r: r["n"] == 1), ("n in (1, 2)", lambda r: r["n"] in (1, 2)), ("n is null", lambda r: r["n"] is None),
    ("n is not null", lambda r: r["n"] is not None), ("ifnull(n, 1) = 1", lambda r: (1 if r["n"] is None else r["n"]) == 1),
    ("coalesce(n, b) = 2", lambda r: (r["b"] if r["n"] is None else r["n"]) == 2), ("not n is null", lambda r: r["n"] is not None),
]
ATOMS = atoms()
BYNAME = dict(ATOMS)
SMALL = ["a = 1", "a = 2", "a != 1", "a > 1", "a >= 2", "a < 2", "a <= 2", "b = 2", "2 > b", "a in (1, 3)", "a < b", "s like 'x%'",
         "a between 1 and 2"]
MEDIUM = SMALL + ["a > 2", "b != 2", "b in (1, 2)", "a in (b, 3)", "2 in (a, b)", "s in ('x', 'yx')", "a not in (1, 3)", "s = 'xy'",
                  "if(a > 1, b, 3) = 3"]
CHAIN = [("a %s %d" % (op, c), lambda r, f=f, c=c: f(r["a"], c)) for op, f in OPS.items() if op != "<>" for c in (1, 2, 3)] + [
    ("a in (1, 2)", lambda r: r["a"] in (1, 2)), ("a in (3)", lambda r: r["a"] == 3), ("a in (1 + 1)", lambda r: r["a"] == 2),
    ("a between 1 and 3", lambda r: 1 <= r["a"] <= 3), ("a not in (2)", lambda r: r["a"] != 2), ("a = b", lambda r: r["a"] == r["b"])]
TINY = ["a = 1", "a = 2", "a > 1", "a >= 2", "a in (1, 3)", "b = 2", "a < b"]
SOURCES = ["select id from t where %s", "select x.id from t x where %s", "select id from (select * from t) y where %s"]


def cases(unit):
    kind, arg = unit
    if kind == "one":
        for s, f in ATOMS + NULLABLE:
            yield s, f
        for s, f in ATOMS:
            yield "not (%s)" % s, (lambda r, f=f: not f(r))
            yield "(%s)" % s, f
            yield "not %s" % s if " and " not in s and " = 3" not in s and "case" not in s else "not (%s)" % s, (lambda r, f=f: not f(r))
        for s in ("true", "1 = 1", "false", "1 = 0", "a"):
            yield s, (lambda r, s=s: s in ("true", "1 = 1", "a"))
    elif kind == "two":
        s1, f1 = (ATOMS + NULLABLE)[arg]
        for s2, f2 in ATOMS + NULLABLE:
            yield "%s and %s" % (s1, s2), (lambda r, f2=f2: f1(r) and f2(r))
            yield "%s or %s" % (s1, s2), (lambda r, f2=f2: f1(r) or f2(r))
    elif kind == "chain":
        s1, f1 = CHAIN[arg[0]]
        for tail in itertools.product(CHAIN, repeat=arg[1]):
            fs = [f1] + [f for _, f in tail]
            yield " and ".join([s1] + [x for x, _ in tail]), lambda r: all(f(r) for f in fs)
    else:
        names = MEDIUM if kind == "three+" else SMALL
        s1, f1 = arg, BYNAME[arg]
        if kind == "four":
            for s2, s3, s4 in itertools.product(TINY, repeat=3):
                f2, f3, f4 = BYNAME[s2], BYNAME[s3], BYNAME[s4]
                yield "%s and %s and %s and %s" % (s1, s2, s3, s4), lambda r: f1(r) and f2(r) and f3(r) and f4(r)
                yield "(%s or %s) and (%s or %s)" % (s1, s2, s3, s4), lambda r: (f1(r) or f2(r)) and (f3(r) or f4(r))
                yield "%s and %s or %s and %s" % (s1, s2, s3, s4), lambda r: (f1(r) and f2(r)) or (f3(r) and f4(r))
                yield "%s and (%s or (%s and not (%s)))" % (s1, s2, s3, s4), lambda r: f1(r) and (f2(r) or (f3(r) and not f4(r)))
            return
        for s2, s3 in itertools.product(names, repeat=2):
            f2, f3 = BYNAME[s2], BYNAME[s3]
            yield "%s and %s and %s" % (s1, s2, s3), lambda r: f1(r) and f2(r) and f3(r)
            yield "%s and (%s or %s)" % (s1, s2, s3), lambda r: f1(r) and (f2(r) or f3(r))
            yield "%s or %s and %s" % (s1, s2, s3), lambda r: f1(r) or (f2(r) and f3(r))
            yield "not (%s and %s) and %s" % (s1, s2, s3), lambda r: not (f1(r) and f2(r)) and f3(r)
            yield "%s and not (%s or %s)" % (s1, s2, s3), lambda r: f1(r) and not (f2(r) or f3(r))


def units(tier):
    out = [("one", None)] + [("two", i) for i in range(len(ATOMS) + len(NULLABLE))]
    out += [("chain", (i, 2)) for i in range(len(CHAIN))]
    if tier == "quick":
        out += [("three", s) for s in SMALL]
    else:
        out += [("three+", s) for s in MEDIUM] + [("four", s) for s in TINY]
    return out


def qualify(pred):
    """a -> x.a for the aliased source."""
    import re
    return re.sub(r"(?<![\w'%.])([absn])(?![\w'(%])", r"x.\1", pred)


def explore(unit, rec):
    e = Engine()
    rows = ROWS if unit[0] != "chain" else [{"id": i, "a": a, "b": 2} for i, a in enumerate((0, 1, 2, 3, 4))]
    e.put("t", rows)
    n = 0
    for pred, f in cases(unit):
        expected = [r["id"] for r in rows if f(r)]
        if not rec.state(pred):
            continue
        n += 1
        srcs = [0, 1, 2] if unit[0] == "one" else [n % 3]
        for k in srcs:
            if k == 0:
                sql = SOURCES[0] % pred
            elif k == 1:
                sql = SOURCES[1] % qualify(pred)
            else:
                sql = SOURCES[2] % pred
            rec.transitions += len(rows)
            got = e.query(sql)
            if not isinstance(got, Err):
                got = [r.get("id") for r in got]
            rec.expect(sql, expected, got, {"tables": {"t": rows}, "sql": sql}, outcome=expected,
                       sample={"sql": sql, "ids": got} if n % 97 == 5 else None)
    e.close()
