"""C07  Window functions.

Every table content up to the bound x every window (partition x order) x every window function; every ordered pair of different windows in one
SELECT; windows next to WHERE, joins, derived tables, ORDER BY/LIMIT, named windows, expressions, and sources read in batches.
"""
import itertools

from core import short
from eng import Engine, Err, key, sequences, tup
from q import mk, rnd, short_tables

LEVEL = "model_checking"
BOUND = {"quick": "tables = every sequence of length <= 3 over 5 (g,v) rows with NULL v, plus 4 tables of 5-7 rows; 32 windows (4 partitions x 8 orders) x 25 window "
                  "functions; every ordered pair of 16 windows; 17 surrounding query forms; 5 joins x 6 partitions x 10 functions x 4 select lists; @batch 0..rows+1",
         "thorough": "as quick with sequences of length <= 4"}
ASSUME = ["an aggregate over a window with ORDER BY runs row by row (ROWS frame) and FIRST/LAST/NTH_VALUE see the whole partition, as the examples pin",
          "the ORDER BY of a window is total (ends with the unique id) where the function depends on the position; NULLs sort first",
          "SUM/AVG of no values is 0, GROUP_CONCAT of no values is ''",
          "RANK/DENSE_RANK with ties, PERCENT_RANK, CUME_DIST and NTILE with uneven buckets are known findings (values pinned by tests)"]
CFG = {"databases": [{"name": "m", "driver": "memory"}]}

ROWS = [(1, None), (1, 1), (1, 2), (2, 1), (2, 3)]
LONG = [((1, 2), (2, 1), (1, 1), (1, None), (2, 3), (1, 2)), ((1, 1), (1, 1), (1, 1), (1, 2), (1, 2)), ((2, None), (1, 3), (2, 2), (2, 2), (1, None), (3, 1), (2, 5)),
        ((1, 5), (1, 4), (1, 3), (1, 2), (1, 1))]
PART = [("", lambda r: ()), ("partition by g", lambda r: (r["g"],)), ("partition by g, v", lambda r: (r["g"], r["v"])), ("partition by id % 2", lambda r: (r["id"] % 2,))]
ORD = [("", []), ("order by id", [("id", 0)]), ("order by id desc", [("id", 1)]), ("order by v, id", [("v", 0), ("id", 0)]), ("order by v desc, id", [("v", 1), ("id", 0)]),
       ("order by v desc, id desc", [("v", 1), ("id", 1)]), ("order by v, id desc", [("v", 0), ("id", 1)]), ("order by g desc, v, id desc", [("g", 1), ("v", 0), ("id", 1)])]


def nn(vs):
    return [v for v in vs if v is not None]


def buckets(i, n, k):
    q, r = divmod(n, k)
    return i // (q + 1) + 1 if i < r * (q + 1) else (i - r) // q + 1


# name, sql, f(rows of the partition in order, index, ordered?) -> value ; last element: (known key, defective formula) or None
FN = [
    ("rn", "row_number()", lambda p, i, o: i + 1, None),
    ("lg", "lag(v)", lambda p, i, o: p[i - 1]["v"] if i > 0 else None, None),
    ("lg2", "lag(id, 2, 99)", lambda p, i, o: p[i - 2]["id"] if i > 1 else 99, None),
    ("ld", "lead(v)", lambda p, i, o: p[i + 1]["v"] if i + 1 < len(p) else None, None),
    ("ld2", "lead(v, 2, -1)", lambda p, i, o: p[i + 2]["v"] if i + 2 < len(p) else -1, None),
    ("lg3", "lag(id, 1, 0)", lambda p, i, o: p[i - 1]["id"] if i > 0 else 0, None),
    ("ld4", "lead(g, 3, 0)", lambda p, i, o: p[i + 3]["g"] if i + 3 < len(p) else 0, None),
    ("ld3", "lead(id, 1)", lambda p, i, o: p[i + 1]["id"] if i + 1 < len(p) else None, None),
    ("fv", "first_value(v)", lambda p, i, o: p[0]["v"], None),
    ("lv", "last_value(id)", lambda p, i, o: p[-1]["id"], None),
    ("nv", "nth_value(v, 2)", lambda p, i, o: p[1]["v"] if len(p) > 1 else None, None),
    ("nv3", "nth_value(id, 3)", lambda p, i, o: p[2]["id"] if len(p) > 2 else None, None),
    ("nt1", "ntile(1)", lambda p, i, o: 1, None),
    ("nt2", "ntile(2)", lambda p, i, o: buckets(i, len(p), 2), ("ntile-uneven", lambda p, i: int(i / (len(p) / 2)) + 1)),
    ("nt3", "ntile(3)", lambda p, i, o: buckets(i, len(p), 3), ("ntile-uneven", lambda p, i: int(i / (len(p) / 3)) + 1)),
    ("nt4", "ntile(4)", lambda p, i, o: buckets(i, len(p), 4), ("ntile-uneven", lambda p, i: int(i / (len(p) / 4)) + 1)),
    ("c", "count(*)", lambda p, i, o: len(p[:i + 1] if o else p), None),
    ("cv", "count(v)", lambda p, i, o: len(nn(r["v"] for r in (p[:i + 1] if o else p))), None),
    ("s", "sum(v)", lambda p, i, o: sum(nn(r["v"] for r in (p[:i + 1] if o else p))), None),
    ("a", "avg(v)", lambda p, i, o: (lambda x: sum(x) / len(x) if x else 0)(nn(r["v"] for r in (p[:i + 1] if o else p))), None),
    ("mi", "min(v)", lambda p, i, o: min(nn(r["v"] for r in (p[:i + 1] if o else p)), default=None), None),
    ("ma", "max(id)", lambda p, i, o: max(nn(r["id"] for r in (p[:i + 1] if o else p)), default=None), None),
    ("cd", "count(distinct v)", lambda p, i, o: len(set(nn(r["v"] for r in (p[:i + 1] if o else p)))), None),
    ("gc", "group_concat(v)", lambda p, i, o: ",".join(str(v) for v in nn(r["v"] for r in (p[:i + 1] if o else p))), None),
    ("su", "sum(g * 10 + id)", lambda p, i, o: sum(r["g"] * 10 + r["id"] for r in (p[:i + 1] if o else p)), None),
]
F = {n: (sql, f) for n, sql, f, _ in FN}


def partition(t, part, order):
    """id -> (partition rows in order, index)"""
    groups = {}
    for r in t:
        groups.setdefault(part(r), []).append(r)
    out = {}
    for rs in groups.values():
        rs = list(rs)
        for c, d in reversed(order):
            rs.sort(key=lambda r: key(r[c]), reverse=bool(d))
        for i, r in enumerate(rs):
            out[r["id"]] = (rs, i)
    return out


def judge(rec, e, sql, cols, expected, setup, alts=None, ordered=True):
    """alts: {col: (known key, [defective values])}"""
    if not rec.state(sql, repr(setup)):
        return
    rec.transitions += len(setup.get("t") or setup.get("m.t") or ())
    got = rnd(tup(e.query(sql), cols))
    expected = rnd(expected)
    k = "%s | %s" % (sql, short_tables(setup))
    case = {"tables": setup, "sql": sql, "cols": cols}
    if isinstance(got, Err):
        return rec.bad(k, "got %r, expected %s" % (got, short(expected)), case)
    if not ordered:
        got, expected = sorted(got, key=key), sorted(expected, key=key)
    if len(got) != len(expected):
        return rec.bad(k, "expected %s, got %s" % (short(expected), short(got)), case)
    for j, c in enumerate(cols):
        g, x = [r[j] for r in got], [r[j] for r in expected]
        if key(g) == key(x):
            continue
        if alts and c in alts and key(g) == key(rnd([tuple(alts[c][1])])[0]):
            rec.bad(alts[c][0], "%s: expected %s, got %s" % (c, short(x), short(g)), case)
            continue
        return rec.bad(k, "column %s: expected %s, got %s" % (c, short(x), short(g)), case)
    rec.ok(got, {"sql": sql[:200], "tables": short_tables(setup), "rows": repr(got)[:160]})


def over(p, o):
    return " over (%s)" % " ".join(x for x in (p, o) if x)


def all_functions(rec, e, t, setup, src="t"):
    for (ps, pf), (os, o) in itertools.product(PART, ORD):
        w = partition(t, pf, o)
        cols, exp, alts = ["id"], [[r["id"]] for r in t], {}
        sel = ["id"]
        for n, sql, f, alt in FN:
            cols.append(n)
            sel.append("%s%s as %s" % (sql, over(ps, os), n))
            for r, row in zip(t, exp):
                row.append(f(w[r["id"]][0], w[r["id"]][1], bool(o)))
            if alt:
                alts[n] = (alt[0], [alt[1](*w[r["id"]]) for r in t])
        judge(rec, e, "select %s from %s" % (", ".join(sel), src), cols, [tuple(r) for r in exp], setup, alts)


WINS = [(p, o) for p in PART[:4] for o in (ORD[0], ORD[1], ORD[4], ORD[6])]


def pairs(rec, e, t, setup):
    for (p1, o1), (p2, o2) in itertools.permutations(WINS, 2):
        w1, w2 = partition(t, p1[1], o1[1]), partition(t, p2[1], o2[1])
        items = [("x", "rn", p1, o1, w1), ("y", "s", p2, o2, w2), ("z", "lg", p2, o2, w2), ("u", "c", p1, o1, w1)]
        sql = "select id, %s from t" % ", ".join("%s%s as %s" % (F[n][0], over(p[0], o[0]), c) for c, n, p, o, w in items)
        exp = [(r["id"],) + tuple(F[n][1](*w[r["id"]], bool(o[1])) for c, n, p, o, w in items) for r in t]
        judge(rec, e, sql, ["id"] + [i[0] for i in items], exp, setup)


U = [(1, 7), (2, 8), (2, 9)]


def forms(rec, e, t, setup):
    def P(rows, part, order, n, r):
        rs, i = partition(rows, part, order)[r["id"]]
        return F[n][1](rs, i, bool(order))
    byg, nopart = PART[1][1], PART[0][1]
    D = [("v", 1), ("id", 0)]
    v2 = [r for r in t if (r["v"] or 0) >= 2]
    judge(rec, e, "select id, row_number() over (partition by g order by v desc, id) as n, count(*) over () as c from t where v >= 2", ["id", "n", "c"],
          [(r["id"], P(v2, byg, D, "rn", r), len(v2)) for r in v2], setup)
    judge(rec, e, "select x.id as id, x.g as g from (select id, g, row_number() over (partition by g order by v desc, id) as n from t) x where x.n = 1", ["id", "g"],
          [(r["id"], r["g"]) for r in t if P(t, byg, D, "rn", r) == 1], setup)
    judge(rec, e, "select id, row_number() over w as n, sum(v) over w as s, row_number() over (order by id desc) as m from t window w as (partition by g order by v desc, id)",
          ["id", "n", "s", "m"], [(r["id"], P(t, byg, D, "rn", r), P(t, byg, D, "s", r), len(t) - r["id"]) for r in t], setup)
    judge(rec, e, "select id, row_number() over (partition by g order by v desc, id) * 10 + count(*) over (partition by g) as n from t", ["id", "n"],
          [(r["id"], P(t, byg, D, "rn", r) * 10 + P(t, byg, [], "c", r)) for r in t], setup)
    judge(rec, e, "select id, if(row_number() over (order by v desc, id) > 1, 'x', 'y') as n from t", ["id", "n"],
          [(r["id"], "x" if P(t, nopart, D, "rn", r) > 1 else "y") for r in t], setup)
    judge(rec, e, "select id, case when count(*) over (partition by g) > 1 then g else 0 end as n, id + 1 as k from t", ["id", "n", "k"],
          [(r["id"], r["g"] if P(t, byg, [], "c", r) > 1 else 0, r["id"] + 1) for r in t], setup)
    judge(rec, e, "select row_number() over (order by id) * 100 + g as n from t", ["n"], [((r["id"] + 1) * 100 + r["g"],) for r in t], setup)
    judge(rec, e, "select id, if(count(*) over (partition by g) > 1, g * 2, id) as n, max(id) over (partition by g) - t.g as m from t t", ["id", "n", "m"],
          [(r["id"], r["g"] * 2 if P(t, byg, [], "c", r) > 1 else r["id"], P(t, byg, [], "ma", r) - r["g"]) for r in t], setup)
    judge(rec, e, "select t.id as id, row_number() over (order by t.id) * 100 + u.w as n from t t inner join u u on u.k = t.g where u.k = 1", ["id", "n"],
          [(r["id"], (i + 1) * 100 + 7) for i, r in enumerate([r for r in t if r["g"] == 1])], setup)
    judge(rec, e, "select id, row_number() over (partition by g order by id) as n from t order by id desc limit 2", ["id", "n"],
          [(r["id"], P(t, byg, [("id", 0)], "rn", r)) for r in t[::-1][:2]], setup)
    judge(rec, e, "select id, row_number() over (order by id) as n from t limit 2", ["id", "n"], [(r["id"], r["id"] + 1) for r in t[:2]], setup)
    judge(rec, e, "select id, row_number() over (order by v desc, id) as n from t having n <= 2", ["id", "n"],
          [(r["id"], P(t, nopart, D, "rn", r)) for r in t if P(t, nopart, D, "rn", r) <= 2], setup)
    judge(rec, e, "select max(x.n) as m from (select row_number() over (partition by g order by id) as n from t) x", ["m"],
          [(max(P(t, byg, [("id", 0)], "rn", r) for r in t),)] if t else [], setup)
    j = [dict(r, id=r["id"] * 10 + i, tid=r["id"], w=w) for r in t for i, (k, w) in enumerate(U) if k == r["g"]]
    judge(rec, e, "select t.id as id, u.w as w, row_number() over (partition by u.w order by t.id desc) as n, sum(u.w) over (partition by t.id) as s "
                  "from t t inner join u u on u.k = t.g", ["id", "w", "n", "s"],
          [(r["tid"], r["w"], P(j, lambda r: (r["w"],), [("tid", 1)], "rn", r), sum(x["w"] for x in j if x["tid"] == r["tid"])) for r in j], setup, ordered=False)
    judge(rec, e, "select id, sum(v) over (partition by g) as s, v as v from t order by s desc, id", ["id", "s", "v"],
          [(r["id"], -s, r["v"]) for s, _, r in sorted((-P(t, byg, [], "s", r), r["id"], r) for r in t)], setup)
    judge(rec, e, "select distinct g, count(*) over (partition by g) as c from t", ["g", "c"],
          list(dict.fromkeys((r["g"], P(t, byg, [], "c", r)) for r in t)), setup)
    # ranks: without ties they are the row number
    tie = lambda r: ()      # noqa: E731
    vs = [r["v"] for r in t]
    asc = partition(t, tie, [("v", 0)])
    rank = [1 + sum(key(x) < key(v) for x in vs) for v in vs]
    dense = [1 + len({x for x in vs if key(x) < key(v)}) for v in vs]
    n = len(t)

    def bad_rank(r):
        rs, i = asc[r["id"]]
        return 1 + sum(x["v"] != rs[0]["v"] for x in rs[:i + 1])
    alts = {"rk": ("rank-ties", [bad_rank(r) for r in t]), "dr": ("dense-rank-ties", [bad_rank(r) for r in t]),
            "pr": ("percent-rank", [0 if asc[r["id"]][1] == 0 else bad_rank(r) - 1 / (asc[r["id"]][1] + 1) - 1 for r in t]),
            "cu": ("cume-dist", [asc[r["id"]][1] + 1 / n + 1 for r in t])}
    judge(rec, e, "select id, rank() over (order by v) as rk, dense_rank() over (order by v) as dr, percent_rank() over (order by v) as pr, "
                  "cume_dist() over (order by v) as cu from t", ["id", "rk", "dr", "pr", "cu"],
          [(r["id"], rank[i], dense[i], (rank[i] - 1) / (n - 1) if n > 1 else 0, sum(key(x) <= key(r["v"]) for x in vs) / n) for i, r in enumerate(t)], setup, alts)


# windows of queries that join tables: what the window, the key and the select list use may or may not come from a joined table
JFROM = [("t t left join u u on u.k = t.g", lambda t, u, q: u["k"] == t["g"], None, True), ("t t left join u u on u.k = t.v", lambda t, u, q: u["k"] == t["v"], None, True),
         ("t t inner join u u on u.k = t.v", lambda t, u, q: u["k"] == t["v"], None, False), ("t t inner join u u on u.w = t.v + 7", lambda t, u, q: t["v"] is not None and u["w"] == t["v"] + 7, None, False),
         ("t t left join u u on u.k = t.v left join u q on q.k = t.g", lambda t, u, q: u["k"] == t["v"], lambda t, u, q: q["k"] == t["g"], True)]
JPART = [("", lambda t, u: ()), ("partition by t.g", lambda t, u: t["g"]), ("partition by t.id", lambda t, u: t["id"]), ("partition by u.w", lambda t, u: u and u["w"]),
         ("partition by t.g, u.k", lambda t, u: (t["g"], u and u["k"])), ("partition by t.id % 2", lambda t, u: t["id"] % 2)]
JFN = [("c", "count(*)", lambda p, i: len(p)), ("cv", "count(t.v)", lambda p, i: len([1 for t, u in p if t["v"] is not None])), ("s", "sum(t.v)", lambda p, i: sum(t["v"] or 0 for t, u in p)),
       ("m", "max(u.w)", lambda p, i: max([u["w"] for t, u in p if u], default=None)), ("cu", "count(u.w)", lambda p, i: len([1 for t, u in p if u])),
       ("mi", "min(t.id + 1)", lambda p, i: min(t["id"] for t, u in p) + 1)]
JON = [("rn", "row_number()", lambda p, i: i + 1), ("lg", "lag(t.id)", lambda p, i: p[i - 1][0]["id"] if i else None), ("ld", "lead(u.w)", lambda p, i: (p[i + 1][1] or {}).get("w") if i + 1 < len(p) else None),
       ("rc", "count(*)", lambda p, i: i + 1)]
JSEL = [(["t.id as i"], lambda t, u: (t["id"],)), (["t.id as i", "u.w as w"], lambda t, u: (t["id"], u and u["w"])), (["u.k as i", "t.g as w"], lambda t, u: (u and u["k"], t["g"])), ([], lambda t, u: ())]


def joined(rec, e, t, setup):
    for fi, (sql, on, on2, left) in enumerate(JFROM):
        rows = []
        for r in t:
            for u in [u for u in setup["u"] if on(r, u, None)] or ([None] if left else []):
                rows += [(r, u)] * (len([q for q in setup["u"] if on2(r, u, q)]) or 1 if on2 else 1)
        for pi, (ps, pf) in enumerate(JPART):
            groups = {}
            for r in rows:
                groups.setdefault(key(pf(*r)), []).append(r)
            for si, (names, sf) in enumerate(JSEL):
                todo = [([f], False) for f in JFN] if (si + pi + fi) % 2 else [(JFN[:4], False), (JFN[3:], False)]
                if si == 1 and on2 is None:
                    todo += [(JON, True), (JON[:1], True)]
                for fns, order in todo:
                    exp = []
                    for g in groups.values():
                        g = sorted(g, key=lambda r: (-r[0]["id"], key(r[1] and r[1]["w"]))) if order else g
                        exp += [sf(*r) + tuple(f(g, i) for _, _, f in fns) for i, r in enumerate(g)]
                    w = over(ps, "order by t.id desc, u.w" if order else "")
                    judge(rec, e, "select %s from %s" % (", ".join(names + ["%s%s as %s" % (f[1], w, f[0]) for f in fns]), sql),
                          ["i", "w"][:len(names)] + [f[0] for f in fns], exp, setup, ordered=False)


def batched(rec, e, t, setup):
    w = partition(t, PART[1][1], ORD[4][1])
    g = partition(t, PART[1][1], [])
    for b in range(0, len(t) + 2):
        e.run("set @batch=%d" % b)
        judge(rec, e, "select id, row_number() over (partition by g order by v desc, id) as n, sum(v) over (partition by g) as s, count(*) over () as c from m.t",
              ["id", "n", "s", "c"], [(r["id"], w[r["id"]][1] + 1, F["s"][1](g[r["id"]][0], 0, False), len(t)) for r in t], dict(setup, **{"@batch": b}))
    e.run("set @batch=0")


def tables(tier):
    return list(sequences(ROWS, 0, 4 if tier == "thorough" else 3)) + LONG


def units(tier):
    ts = tables(tier)
    return [(tier, ts[i::40]) for i in range(40)]


def explore(unit, rec):
    tier, ts = unit
    e = Engine(CFG)
    for rows in ts:
        t = mk(rows, ["g", "v"])
        setup = {"t": t, "u": mk(U, ["k", "w"])}
        e.put("t", t)
        e.put("t", t, "m")
        e.put("u", setup["u"])
        all_functions(rec, e, t, {"t": t})
        forms(rec, e, t, setup)
        if len(rows) in (2, 5, 6) or tier == "thorough":
            joined(rec, e, t, setup)
        if len(rows) in (2, 5, 6, 7) or tier == "thorough":
            pairs(rec, e, t, {"t": t})
        batched(rec, e, t, {"m.t": t})
    e.close()
