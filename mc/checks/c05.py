"""C05  A query built from subqueries returns what its parts, evaluated one inside the other, return.

t holds every (a, b) combination; u runs through every row sequence up to the bound. Predicates, scalars and derived tables built from
subqueries are enumerated (alone, negated, in pairs, nested) and compared with direct evaluation of the subquery for each outer row.
"""
import itertools
import operator

from eng import Engine, Err, bag, sequences, tup
from q import compare, mk

LEVEL = "model_checking"
BOUND = {"quick": "u = every row sequence of length <= 2 over 4 (k,v) rows (plus 3 fixed longer ones), t = all 4 (a,b) rows; every subquery predicate (membership, "
                  "comparison, EXISTS x plain, filtered, correlated, aggregated, nested, UNION, derived, ordered+limited) alone and negated, every AND/OR pair "
                  "on fixed u, every ordered list of <= 3 of 12 conditions as WHERE of a correlated EXISTS / IN / aggregate on fixed u, 20 scalar forms, every predicate and scalar form in 6 joined queries (correlated with either table, next to conditions of the other one), 27 derived-table queries, 12 WITH queries (each run twice)",
         "thorough": "as quick with u of length <= 3 and the pairs on every u"}
ASSUME = ["tables of correlated subqueries are named through an alias; a correlated aggregate is correlated by plain equality (known finding "
          "correlated-aggregate-inequality); correlated COUNT over no rows is NULL (pinned by tests/test_example_subquery.py) and only claimed as count > 0",
          "a correlated subquery does not use LIMIT (known finding correlated-limit)",
          "comparisons with and arithmetic on an empty scalar subquery (NULL) are only claimed for = and IN",
          "a correlated EXISTS names its columns (SELECT * next to the correlation columns is refused by the compiler)"]

T = [(a, b) for a in (1, 2) for b in (1, 2)]
UROWS = [(k, v) for k in (1, 2) for v in (1, 2)]
LONG = [((1, 1), (1, 2), (2, 2), (3, 1)), ((2, 1), (2, 1), (1, 2), (2, 2), (5, 1)), ((3, 3), (3, 1), (1, 3))]
OPS = {"=": operator.eq, "!=": operator.ne, "<": operator.lt, ">=": operator.ge, ">": operator.gt, "<=": operator.le}


def K(u):
    return [r["k"] for r in u]


# column subqueries: sql, f(t_row, u) -> list of values
COLSUB = [
    ("select k from u", lambda t, u: K(u)),
    ("select k from u where v > 1", lambda t, u: [r["k"] for r in u if r["v"] > 1]),
    ("select u.k from u u where u.v = 1 or u.k = 2", lambda t, u: [r["k"] for r in u if r["v"] == 1 or r["k"] == 2]),
    ("select distinct v from u", lambda t, u: [r["v"] for r in u]),
    ("select k + v as s from u", lambda t, u: [r["k"] + r["v"] for r in u]),
    ("select max(k) as m from u", lambda t, u: [max(K(u))] if u else None),
    ("select k from u group by k", lambda t, u: K(u)),
    ("select k from (select k, count(*) as c from u group by k) x where x.c > 1", lambda t, u: [k for k in K(u) if K(u).count(k) > 1]),
    ("select k from u where v in (select k from u where k > 1)", lambda t, u: [r["k"] for r in u if r["v"] in [x for x in K(u) if x > 1]]),
    ("select k from (select k, v from u where v = 2) x", lambda t, u: [r["k"] for r in u if r["v"] == 2]),
    ("select k from u order by k desc, v limit 1", lambda t, u: sorted(K(u))[-1:]),
    ("select x.k from (select k from u union all select a as k from t where b = 9) x", lambda t, u: K(u)),
    # correlated
    ("select u.k from u u where u.v = t.b", lambda t, u: [r["k"] for r in u if r["v"] == t["b"]]),
    ("select u.v from u u where u.k = t.a", lambda t, u: [r["v"] for r in u if r["k"] == t["a"]]),
    ("select u.k from u u where u.v > t.b", lambda t, u: [r["k"] for r in u if r["v"] > t["b"]]),
    ("select u.k from u u where u.v = t.b and u.k = t.a", lambda t, u: [r["k"] for r in u if r["v"] == t["b"] and r["k"] == t["a"]]),
    ("select u.k from u u where u.v = t.b and u.k > 1", lambda t, u: [r["k"] for r in u if r["v"] == t["b"] and r["k"] > 1]),
]
LHS = [("t.a", lambda t: t["a"]), ("t.a + t.b", lambda t: t["a"] + t["b"]), ("2", lambda t: 2)]

def AVG(x):
    return sum(x) / len(x) if x else None


AGGSUB = [
    ("select max(v) from u", lambda t, u: max([r["v"] for r in u] or [None])),
    ("select min(k) as x from u where v = 1", lambda t, u: min([r["k"] for r in u if r["v"] == 1] or [None])),
    ("select sum(k) from u", lambda t, u: sum(K(u)) if u else None),
    ("select count(*) from u", lambda t, u: len(u) if u else None),
    ("select u.v from u u order by u.v desc limit 1", lambda t, u: max([r["v"] for r in u] or [None])),
    ("select max(x.s) from (select k, sum(v) as s from u group by k) x",
     lambda t, u: max([sum(r["v"] for r in u if r["k"] == k) for k in K(u)] or [None])),
    ("select max(u.v) from u u where u.k = t.a", lambda t, u: max([r["v"] for r in u if r["k"] == t["a"]] or [None])),
    ("select sum(u.k) from u u where u.v = t.b", lambda t, u: sum([r["k"] for r in u if r["v"] == t["b"]]) if [r for r in u if r["v"] == t["b"]] else None),
    ("select min(u.k) from u u where u.v = t.b and u.k > 1", lambda t, u: min([r["k"] for r in u if r["v"] == t["b"] and r["k"] > 1] or [None])),
    ("select count(*) from u u where u.k = t.a", lambda t, u: len([r for r in u if r["k"] == t["a"]]) or None),
    ("select min(u.v) from u u where t.a = u.k and u.v = t.b", lambda t, u: t["b"] if [r for r in u if r["k"] == t["a"] and r["v"] == t["b"]] else None),
]
EXSUB = [
    ("select k from u", lambda t, u: bool(u)),
    ("select 1 from u where v = 2", lambda t, u: any(r["v"] == 2 for r in u)),
    ("select k from u where k > 5", lambda t, u: False),
    ("select u.k from u u where u.k = t.a", lambda t, u: any(r["k"] == t["a"] for r in u)),
    ("select 1 from u u where u.k = t.a and u.v = t.b", lambda t, u: any(r["k"] == t["a"] and r["v"] == t["b"] for r in u)),
    ("select u.k, u.v from u u where u.v > t.b", lambda t, u: any(r["v"] > t["b"] for r in u)),
    ("select u.k from u u where u.k = t.a and u.v > 1", lambda t, u: any(r["k"] == t["a"] and r["v"] > 1 for r in u)),
    ("select u.k from u u where u.k = t.a and u.v <= t.b", lambda t, u: any(r["k"] == t["a"] and r["v"] <= t["b"] for r in u)),
]


def preds():
    """(sql, f(t_row, u) -> True/False/None(not claimed for this data))"""
    out = []
    for sql, f in COLSUB:
        for l, lf in LHS if "max" not in sql else LHS[:1]:
            if "t." in sql and l == "2":
                continue
            for n in ("", "not "):
                def g(t, u, f=f, lf=lf, n=n):
                    s = f(t, u)
                    return None if s is None else (lf(t) in s) != bool(n)
                out.append(("%s %sin (%s)" % (l, n, sql), g))
    for sql, f in AGGSUB:
        for l, lf in LHS[:2]:
            for op, of in OPS.items():
                def g(t, u, f=f, lf=lf, op=op, of=of):
                    s = f(t, u)
                    return (None if op != "=" else False) if s is None else of(lf(t), s)
                g.neg = lambda t, u, f=f, lf=lf, of=of: None if f(t, u) is None else not of(lf(t), f(t, u))
                out.append(("%s %s (%s)" % (l, op, sql), g))
    for sql, f in EXSUB:
        out.append(("exists (%s)" % sql, f))
        out.append(("not exists (%s)" % sql, lambda t, u, f=f: not f(t, u)))
    out += [
        ("t.b between (select min(v) from u) and (select max(v) from u)",
         lambda t, u: None if not u else min(r["v"] for r in u) <= t["b"] <= max(r["v"] for r in u)),
        ("t.a in (select k from u where v = (select max(v) from u))", lambda t, u: t["a"] in [r["k"] for r in u if r["v"] == max(x["v"] for x in u)]),
        ("t.a = (select max(k) from u where v in (select b from t where a = 1))", lambda t, u: bool(u) and t["a"] == max(K(u))),
        ("t.a in (1, (select max(k) from u))", lambda t, u: None if not u else t["a"] in (1, max(K(u)))),
        ("if(exists (select u.k from u u where u.k = t.a), t.b, 0) = 1", lambda t, u: t["a"] in K(u) and t["b"] == 1),
    ]
    return out


PREDS = preds()
# conditions of the WHERE of a correlated subquery: every ordered list of up to three of them
ATOMS = [("u.k = t.a", lambda t, r: r["k"] == t["a"]), ("u.k = t.b", lambda t, r: r["k"] == t["b"]), ("t.b = u.v", lambda t, r: r["v"] == t["b"]), ("u.v > t.b", lambda t, r: r["v"] > t["b"]),
         ("t.a != u.k", lambda t, r: r["k"] != t["a"]), ("u.k = 1", lambda t, r: r["k"] == 1), ("u.v >= 2", lambda t, r: r["v"] >= 2),
         ("(u.v = 1 or u.k = 2)", lambda t, r: r["v"] == 1 or r["k"] == 2), ("(u.v = 1 or u.k > t.b)", lambda t, r: r["v"] == 1 or r["k"] > t["b"]),
         ("u.v + u.k > t.a + t.b", lambda t, r: r["v"] + r["k"] > t["a"] + t["b"]), ("u.k in (t.b, 3)", lambda t, r: r["k"] in (t["b"], 3)),
         ("not u.v = t.b", lambda t, r: r["v"] != t["b"])]


def conjunctions(rec, e, s, first, deep):
    for n in (1, 2, 3):
        if n == 3 and not deep:
            break
        for atoms in itertools.permutations(ATOMS, n):
            if atoms[0] is not ATOMS[first]:
                continue
            if not any("t." in a for a, _ in atoms):
                continue
            w = " and ".join(a for a, _ in atoms)
            hit = lambda t, u: [r for r in u if all(f(t, r) for _, f in atoms)]      # noqa: E731
            where(rec, e, s, "exists (select u.id from u u where %s)" % w, lambda t, u: bool(hit(t, u)))
            where(rec, e, s, "t.b %sin (select u.v from u u where %s)" % ("" if len(w) % 2 else "not ", w),
                  lambda t, u: (t["b"] in [r["v"] for r in hit(t, u)]) == bool(len(w) % 2))
            if all("=" in a and "t." in a and "!" not in a and "n" not in a and "(" not in a or "t." not in a for a, _ in atoms):
                sql = "select t.a as a, t.b as b, (select sum(u.k) from u u where %s) as x from t t" % w
                if rec.state(sql, repr(s["u"])):
                    rec.transitions += len(s["t"])
                    compare(rec, e, sql, ["a", "b", "x"], [(r["a"], r["b"], sum(x["k"] for x in hit(r, s["u"])) if hit(r, s["u"]) else None) for r in s["t"]], setup=s)


PLAIN = [("t.a = 1", lambda t, u: t["a"] == 1), ("t.b > 1", lambda t, u: t["b"] > 1)]

MORE = [
    ("select avg(u.v) from u u where u.k = t.a", lambda t, u: AVG([r["v"] for r in u if r["k"] == t["a"]])),
    ("select count(distinct u.v) from u u where u.k = t.a", lambda t, u: len(set(r["v"] for r in u if r["k"] == t["a"])) or None),
    ("select sum(u.v) + 1 from u u where u.k = t.a", lambda t, u: sum(r["v"] for r in u if r["k"] == t["a"]) + 1 if t["a"] in K(u) else None),
    ("select avg(v) from u", lambda t, u: AVG([r["v"] for r in u])),
]
SCALARS = [("(%s)" % s, f) for s, f in AGGSUB + MORE] + [
    ("(select max(v) from u) + t.a", lambda t, u: None if not u else max(r["v"] for r in u) + t["a"]),
    ("t.b - (select sum(k) from u)", lambda t, u: None if not u else t["b"] - sum(K(u))),
    ("ifnull((select max(u.v) from u u where u.k = t.a), 0)", lambda t, u: max([r["v"] for r in u if r["k"] == t["a"]] or [0])),
    ("coalesce((select sum(u.v) from u u where u.k = t.b), t.a + 10)",
     lambda t, u: sum(r["v"] for r in u if r["k"] == t["b"]) if t["b"] in K(u) else t["a"] + 10),
    ("case when exists (select u.k from u u where u.k = t.a) then 'y' else 'n' end", lambda t, u: "y" if t["a"] in K(u) else "n"),
    ("case when t.a in (select k from u) then 5 else t.b end", lambda t, u: 5 if t["a"] in K(u) else t["b"]),
    ("if(t.a in (select u.k from u u where u.v = t.b), 1, 2)", lambda t, u: 1 if any(r["k"] == t["a"] and r["v"] == t["b"] for r in u) else 2),
    ("(select min(k) from u) * 10 + ifnull((select max(u.v) from u u where u.k = t.a), 7)",
     lambda t, u: None if not u else min(K(u)) * 10 + max([r["v"] for r in u if r["k"] == t["a"]] or [7])),
]


def grp(rows, kf):
    out = {}
    for r in rows:
        out.setdefault(kf(r), []).append(r)
    return out


SU = "(select k, sum(v) as s, count(*) as c from u group by k)"


def su(u):
    return [{"k": k, "s": sum(r["v"] for r in rs), "c": len(rs)} for k, rs in grp(u, lambda r: r["k"]).items()]


DERIVED = [
    ("select k, v from (select k, v from u) d", ["k", "v"], lambda t, u: [(r["k"], r["v"]) for r in u]),
    ("select d.k as k, d.w as w from (select k, v + 1 as w from u where k = 1) d where d.w > 2", ["k", "w"],
     lambda t, u: [(1, r["v"] + 1) for r in u if r["k"] == 1 and r["v"] > 1]),
    ("select w, count(*) as c from (select k + v as w from u) d group by w", ["w", "c"],
     lambda t, u: [(w, len(rs)) for w, rs in grp(u, lambda r: r["k"] + r["v"]).items()]),
    ("select k, s from %s d" % SU, ["k", "s"], lambda t, u: [(r["k"], r["s"]) for r in su(u)]),
    ("select k, s from %s d where d.s > 2 or d.c = 1" % SU, ["k", "s"], lambda t, u: [(r["k"], r["s"]) for r in su(u) if r["s"] > 2 or r["c"] == 1]),
    ("select sum(s) as x, max(c) as y from %s d" % SU, ["x", "y"],
     lambda t, u: [(sum(r["v"] for r in u), max(r["c"] for r in su(u)))] if u else None),
    ("select c, count(*) as n from %s d group by c" % SU, ["c", "n"], lambda t, u: [(c, len(rs)) for c, rs in grp(su(u), lambda r: r["c"]).items()]),
    ("select x from (select k + 1 as x from (select k from u where v = 1) d) f where f.x < 3", ["x"],
     lambda t, u: [(r["k"] + 1,) for r in u if r["v"] == 1 and r["k"] + 1 < 3]),
    ("select x.k as k from (select distinct k from u) x", ["k"], lambda t, u: [(k,) for k in dict.fromkeys(K(u))]),
    ("select v from (select v from u order by v desc limit 1) d", ["v"], lambda t, u: [(v,) for v in sorted(r["v"] for r in u)[-1:]]),
    ("select k from (select k from u union all select a as k from t) d", ["k"], lambda t, u: [(r["k"],) for r in u] + [(r["a"],) for r in t]),
    ("select t.a as a, d.s as s from t t join %s d on d.k = t.a" % SU, ["a", "s"],
     lambda t, u: [(r["a"], sum([x["v"] for x in u if x["k"] == r["a"]]) if r["a"] in K(u) else None) for r in t]),
    ("select t.a as a, d.s as s from t t inner join %s d on d.k = t.b and d.c > 1" % SU, ["a", "s"],
     lambda t, u: [(r["a"], d["s"]) for r in t for d in su(u) if d["k"] == r["b"] and d["c"] > 1]),
    ("select d.k as k, t.b as b from (select k, v from u where v = 1) d inner join t t on t.a = d.k", ["k", "b"],
     lambda t, u: [(r["k"], x["b"]) for r in u if r["v"] == 1 for x in t if x["a"] == r["k"]]),
    ("select d.k as k, e.s as s from (select k from u) d inner join %s e on e.k = d.k" % SU, ["k", "s"],
     lambda t, u: [(r["k"], d["s"]) for r in u for d in su(u) if d["k"] == r["k"]]),
    ("select d.k as k from (select k from u where k in (select a from t where b = 2)) d where d.k not in (select v from u)", ["k"],
     lambda t, u: [(r["k"],) for r in u if r["k"] in [x["a"] for x in t if x["b"] == 2] and r["k"] not in [x["v"] for x in u]]),
    ("select d.a as a, d.f as f from (select t.a, exists (select u.k from u u where u.k = t.a and u.v = t.b) as f from t t) d where d.f = 1", ["a", "f"],
     lambda t, u: [(r["a"], 1) for r in t if any(x["k"] == r["a"] and x["v"] == r["b"] for x in u)]),
    ("select a, m from (select t.a, t.b, (select max(u.v) from u u where u.k = t.a) as m from t t) d where d.m = d.b", ["a", "m"],
     lambda t, u: [(r["a"], r["b"]) for r in t if r["a"] in K(u) and max(x["v"] for x in u if x["k"] == r["a"]) == r["b"]]),
    ("select k, sum(v) as s from u group by k having s in (select a + 1 as x from t)", ["k", "s"],
     lambda t, u: [(r["k"], r["s"]) for r in su(u) if r["s"] in [x["a"] + 1 for x in t]]),
    ("select k, count(*) as c from u group by k having c = (select max(a) from t)", ["k", "c"],
     lambda t, u: [(r["k"], r["c"]) for r in su(u) if r["c"] == max(x["a"] for x in t)] if t else None),
    ("select k, count(*) as c from u where k in (select a from t) group by k having c > 1", ["k", "c"],
     lambda t, u: [(r["k"], r["c"]) for r in su(u) if r["c"] > 1 and r["k"] in [x["a"] for x in t]]),
    ("select (select max(k) from u) as m, count(*) as c from t group by a", ["m", "c"], lambda t, u: [(max([r["k"] for r in u if r["k"] is not None], default=None), len(rs)) for a, rs in grp(t, lambda r: r["a"]).items()]),
    ("select a, sum(b) as s from t where a in (select k from u) group by a", ["a", "s"],
     lambda t, u: [(a, sum(r["b"] for r in rs)) for a, rs in grp(t, lambda r: r["a"]).items() if a in K(u)]),
    ("select t.a as a, u.v as v from t t inner join u u on u.k = t.a where t.b in (select v from u where k = 1)", ["a", "v"],
     lambda t, u: [(r["a"], x["v"]) for r in t for x in u if x["k"] == r["a"] and r["b"] in [y["v"] for y in u if y["k"] == 1]]),
    ("select t.a as a, u.v as v from t t inner join u u on u.k = t.a where exists (select 1 from u where v = 2)", ["a", "v"],
     lambda t, u: [(r["a"], x["v"]) for r in t for x in u if x["k"] == r["a"] and any(y["v"] == 2 for y in u)]),
    ("select a from t where a in (select k from u) union all select k as a from u where k not in (select a from t)", ["a"],
     lambda t, u: [(r["a"],) for r in t if r["a"] in K(u)] + [(k,) for k in K(u) if k not in [r["a"] for r in t]]),
    ("select a, b from t where a in (select k from u) order by b desc, a desc limit 2", ["a", "b"],
     lambda t, u: sorted([(r["a"], r["b"]) for r in t if r["a"] in K(u)], key=lambda r: (-r[1], -r[0]))[:2]),
]

CTE = [
    ("with x as (select k, v from u) select k, v from x", ["k", "v"], lambda t, u: [(r["k"], r["v"]) for r in u]),
    ("with x as (select k, sum(v) as s, count(*) as c from u group by k) select k, s from x where s > 2 or c = 1", ["k", "s"],
     lambda t, u: [(r["k"], r["s"]) for r in su(u) if r["s"] > 2 or r["c"] == 1]),
    ("with x as (select k, v from u where v = 1), y as (select k + 1 as j from x) select j from y where j < 3", ["j"],
     lambda t, u: [(r["k"] + 1,) for r in u if r["v"] == 1 and r["k"] + 1 < 3]),
    ("with u as (select k from u where v = 2) select k, count(*) as c from u group by k", ["k", "c"],
     lambda t, u: [(k, len(rs)) for k, rs in grp([r for r in u if r["v"] == 2], lambda r: r["k"]).items()]),
    ("with x as (select distinct k from u) select a, b from t where a in (select k from x) and b not in (select k from x)", ["a", "b"],
     lambda t, u: [(r["a"], r["b"]) for r in t if r["a"] in K(u) and r["b"] not in K(u)]),
    ("with x as (select k, v from u) select x1.k as k, x2.v as v from x x1 inner join x x2 on x2.k = x1.v", ["k", "v"],
     lambda t, u: [(r["k"], q["v"]) for r in u for q in u if q["k"] == r["v"]]),
    ("with x as (select k, max(v) as m from u group by k) select t.a as a, y.m as m from t t left join x y on y.k = t.a", ["a", "m"],
     lambda t, u: [(r["a"], max([q["v"] for q in u if q["k"] == r["a"]] or [None])) for r in t]),
    ("with x as (select k, v from u) select t.a as a, (select sum(y.v) from x y where y.k = t.b) as s from t t where exists (select z.k from x z where z.k = t.a)",
     ["a", "s"], lambda t, u: [(r["a"], sum(q["v"] for q in u if q["k"] == r["b"]) if r["b"] in K(u) else None) for r in t if r["a"] in K(u)]),
    ("select k from (with x as (select k from u where v = 1) select k from x) d", ["k"], lambda t, u: [(r["k"],) for r in u if r["v"] == 1]),
    ("with x as (select k from u union all select a as k from t) select k, count(*) as c from x group by k", ["k", "c"],
     lambda t, u: [(k, len(rs)) for k, rs in grp([r["k"] for r in u] + [r["a"] for r in t], lambda k: k).items()]),
    ("with x as (select a from t), y as (select k as a from u) select a from x where a in (select a from y) union all select a from y", ["a"],
     lambda t, u: [(r["a"],) for r in t if r["a"] in K(u)] + [(k,) for k in K(u)]),
    ("with recursive x as (select k as n from u union all select n + 2 as n from x where n < 4) select n from x", ["n"],
     lambda t, u: [(n,) for k in K(u) for n in range(k, 6, 2) if n == k or n - 2 < 4]),
]


def seqs(tier):
    return list(sequences(UROWS, 0, 3 if tier == "thorough" else 2)) + LONG


def units(tier):
    us = seqs(tier)
    out = [("known",)]
    out += [("all", tier, us[i:i + 2]) for i in range(0, len(us), 2)]
    out += [("conj", i, us if tier == "thorough" else [LONG[0], ((1, 2), (2, 1)), ()], tier == "thorough") for i in range(len(ATOMS))]
    out += [("pairs", i, us if tier == "thorough" else [LONG[0], ((1, 2),)]) for i in range(0, len(PREDS), 3)]
    out += [("joined", tier, i) for i in range(0, len(PREDS), 6)]
    return out


def setup(e, us, t=T):
    s = {"t": mk(t, ["a", "b"]), "u": mk(us, ["k", "v"])}
    for k, v in s.items():
        e.put(k, v)
    return s


def where(rec, e, s, sql, f):
    exp = []
    for r in s["t"]:
        x = f(r, s["u"])
        if x is None:
            return
        if x:
            exp.append((r["a"], r["b"]))
    sql = "select t.a as a, t.b as b from t t where " + sql
    if rec.state(sql, repr(s["u"])):
        rec.transitions += len(s["t"])
        compare(rec, e, sql, ["a", "b"], exp, setup=s)


# FROM of the outer query: (sql, tables, condition, is the join a LEFT JOIN, aliases that the subqueries may be correlated with)
OUTER = [("t t left join w j on t.a = j.a", lambda t, j: t["a"] == j["a"], True, "t"), ("t t inner join w j on t.a = j.a", lambda t, j: t["a"] == j["a"], False, "tj"),
         ("t t inner join w j on t.b = j.a", lambda t, j: t["b"] == j["a"], False, "tj"), ("t t left join w j on t.b = j.b", lambda t, j: t["b"] == j["b"], True, "t"),
         ("t t inner join (select distinct a, b from w) j on t.a = j.b", lambda t, j: t["a"] == j["b"], False, "tj"),
         ("t t left join w j on t.a = j.a inner join w i on t.b = i.b", None, True, "t")]
WROWS = [[(1, 1), (1, 2), (3, 1)], [(2, 1)], [(1, 1), (2, 2), (2, 1), (1, 2)]]
JPLAIN = [("j.b = 1", lambda t, j: j is not None and j["b"] == 1), ("t.b > 1", lambda t, j: t["b"] > 1), ("j.b is null", lambda t, j: j is None), ("j.b >= t.b", lambda t, j: j is not None and j["b"] >= t["b"])]


def outer_rows(form, s):
    sql, on, left, _ = form
    out = []
    for t in s["t"]:
        if on is None:
            js = [j for j in s["w"] if t["a"] == j["a"]] or [None]
            out += [(t, j) for j in js for i in s["w"] if t["b"] == i["b"]]
            continue
        rows = s["w"]
        if "distinct" in sql:
            rows = [dict(a=a, b=b) for a, b in sorted({(r["a"], r["b"]) for r in rows})]
        js = [j for j in rows if on(t, j)]
        out += [(t, j) for j in js or ([None] if left else [])]
    return out


def joined(rec, e, us, ws, lo, hi, forms=len(OUTER)):
    """subqueries in the WHERE and in the SELECT list of a query that joins tables"""
    s = setup(e, us)
    s["w"] = mk(ws, ["a", "b"])
    e.put("w", s["w"])
    for fi, form in enumerate(OUTER[:forms]):
        rows = outer_rows(form, s)
        preds = [(al, sql if al == "t" else sql.replace("t.", "j."), f) for al in form[3] for sql, f in PREDS[lo:hi]]

        def ask(w, f, group):
            exp = []
            for t, j in rows:
                x = f(t, j)
                if x is None:
                    return
                if x:
                    exp.append((t["a"], t["b"], j and j["b"]))
            if group:
                sql, cols = "select t.a as a, count(*) as n from %s where %s group by t.a" % (form[0], w), ["a", "n"]
                exp = [(a, len(rs)) for a, rs in grp(exp, lambda r: r[0]).items()]
            else:
                sql, cols = "select t.a as a, t.b as b, j.b as c from %s where %s" % (form[0], w), ["a", "b", "c"]
            if rec.state(sql, us, ws):
                rec.transitions += len(rows)
                compare(rec, e, sql, cols, exp, setup=s)
        for n, (al, sql, f) in enumerate(preds):
            def g(t, j, f=f, al=al):
                return f(t if al == "t" else j, s["u"])
            ask(sql, g, False)
            if n % 3 == fi % 3:
                ask(sql, g, True)
            for m, (sql2, f2) in enumerate(JPLAIN):
                if (n + m + fi) % 2 and len(us) == 4:
                    ask("%s and %s" % (sql2, sql), lambda t, j: None if g(t, j) is None else f2(t, j) and g(t, j), False)
                elif (n + m) % 4 == fi % 4:
                    ask("%s and %s" % (sql, sql2), lambda t, j: None if g(t, j) is None else f2(t, j) and g(t, j), False)
                    ask("%s or %s" % (sql, sql2), lambda t, j: None if g(t, j) is None else f2(t, j) or g(t, j), False)
            for al3, sql3, f3 in (preds[n + 1:n + 2] + [p for p in preds if p[0] != al][n % len(preds):][:1]):
                def both(t, j):
                    x, y = g(t, j), f3(t if al3 == "t" else j, s["u"])
                    return None if x is None or y is None else x and y
                ask("%s and %s" % (sql, sql3), both, False)
        for sql, f in SCALARS[lo // 3:hi // 3 or 1]:
            if not us and (" + t.a" in sql or "t.b - " in sql or "* 10" in sql):
                continue
            sql = "select j.b as c, %s as x, t.b as b from %s" % (sql, form[0])
            if rec.state(sql, us, ws):
                rec.transitions += len(rows)
                compare(rec, e, sql, ["c", "x", "b"], [(j and j["b"], f(t, s["u"]), t["b"]) for t, j in rows], setup=s)


def known(rec, e):
    s = setup(e, [(1, 1), (1, 2), (2, 1), (2, 2)], [(1, 1), (1, 2), (2, 2)])
    sql = "select t.a as a, (select max(u.v) from u u where u.k = t.a and u.v < t.b * 10) as m from t t"
    got = tup(e.query(sql), ["a", "m"])
    if got == [(1, 2), (1, 2), (2, 2)]:
        rec.ok(got)
    elif not isinstance(got, Err) and all(isinstance(r[1], (list, dict)) for r in got):
        rec.bad("correlated-aggregate-inequality", "list of values instead of the aggregate: %r" % (got,), {"sql": sql})
    else:
        rec.bad("correlated-aggregate", "got %r" % (got,), {"sql": sql})
    sql = "select t.a as a, (select u.v from u u where u.k = t.a order by u.v desc limit 1) as m from t t"
    got = tup(e.query(sql), ["a", "m"])
    if got == [(1, 2), (1, 2), (2, 2)]:
        rec.ok(got)
    elif not isinstance(got, Err) and [r[0] for r in got] == [1, 1, 2] and any(r[1] is None for r in got):
        rec.bad("correlated-limit", "LIMIT counted over all outer rows: %r" % (got,), {"sql": sql})
    else:
        rec.bad("correlated-limited", "got %r" % (got,), {"sql": sql})


def explore(unit, rec):
    e = Engine()
    if unit[0] == "known":
        known(rec, e)
    elif unit[0] == "conj":
        for us in unit[2]:
            conjunctions(rec, e, setup(e, us), unit[1], unit[3] or len(us) == 4)
    elif unit[0] == "joined":
        for us in ([LONG[0], (), ((1, 2),)] if unit[1] == "quick" else seqs(unit[1])):
            for ws in WROWS[:None if len(us) == 4 or unit[1] != "quick" else 1]:
                joined(rec, e, us, ws, unit[2], unit[2] + 6, len(OUTER) if ws is WROWS[0] and len(us) == 4 or unit[1] != "quick" else 2)
    elif unit[0] == "all":
        for us in unit[2]:
            s = setup(e, us)
            for sql, f in PREDS:
                where(rec, e, s, sql, f)
                if unit[1] == "thorough" or len(us) != 1:
                    where(rec, e, s, "not (%s)" % sql, getattr(f, "neg", lambda t, u: None if f(t, u) is None else not f(t, u)))
            for sql, f in SCALARS:
                if not us and (" + t.a" in sql or "t.b - " in sql or "* 10" in sql):
                    continue            # arithmetic with NULL
                sql = "select t.a as a, t.b as b, %s as x from t t" % sql
                if rec.state(sql, us):
                    rec.transitions += len(s["t"])
                    compare(rec, e, sql, ["a", "b", "x"], [(r["a"], r["b"], f(r, s["u"])) for r in s["t"]], setup=s)
            for (s1, f1), (s2, f2) in itertools.combinations(SCALARS, 2):
                if unit[1] != "thorough" and us not in LONG[:1]:
                    break
                sql = "select t.a as a, %s as x, %s as y from t t" % (s1, s2)
                if rec.state(sql, us):
                    rec.transitions += len(s["t"])
                    compare(rec, e, sql, ["a", "x", "y"], [(r["a"], f1(r, s["u"]), f2(r, s["u"])) for r in s["t"]], setup=s)
            for sql, cols, f in DERIVED:
                exp = f(s["t"], s["u"])
                if exp is not None and rec.state(sql, us):
                    rec.transitions += len(s["t"]) + len(s["u"])
                    compare(rec, e, sql, cols, exp, setup=s)
            for sql, cols, f in CTE:
                if rec.state(sql, us):
                    for again in range(2):
                        rec.transitions += len(s["t"]) + len(s["u"])
                        compare(rec, e, sql, cols, f(s["t"], s["u"]), setup=s, keyhead="%s run %d" % (us, again))
                    rec.expect("leftovers of " + sql, sorted("--." + n for n in s if s[n]), sorted(e.tables()), {"sql": sql, "tables": s})
    else:
        for us in unit[2]:
            s = setup(e, us)
            for sql, f in PREDS[unit[1]:unit[1] + 3]:
                for sql2, f2 in (PREDS[::4] if unit[2] is not None and len(us) != 4 else PREDS[::8]) + PLAIN:
                    for op in ("and", "or"):
                        def g(t, u):
                            x, y = f(t, u), f2(t, u)
                            return None if x is None or y is None else (x and y if op == "and" else x or y)
                        where(rec, e, s, "%s %s %s" % (sql, op, sql2), g)
    e.close()
