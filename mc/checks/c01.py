"""C01  Aggregation does not depend on how the input is batched, and equals its definition.

State space: every table (row sequence) over a small row alphabet up to n rows, reached by row-insert
transitions from the empty table; in every state every aggregate query is run on the real engine with
every @batch size from 0 (off) to n+1 and compared with the textbook definition.
"""
import itertools
import json

from eng import Engine, Err, bag, tup, sequences

LEVEL = "model_checking"
BOUND = {"quick": "tables of <=3 rows over 6 row values (single key, incl. NULL key), 4 rows over 4 row values, <=2 rows over 12 row "
                  "values (composite key), <=4 rows over 4 mixed int/float rows; @batch in 0..rows+1; 14 aggregates per query in grouped, "
                  "ungrouped, composite-key, expression, WHERE, HAVING, ORDER/LIMIT and derived-table queries",
         "thorough": "as quick with one more row in every family"}
ASSUME = ["numeric values are small ints (and one float); SUM of no values is 0, AVG of no values is 0 and GROUP_CONCAT of no "
          "values is '' in this engine (its documented examples rely on it), so the oracle uses those conventions",
          "source is a memory database declared next to the built-in one, so the loader honours @batch"]

G = (1, 2, None)
V = (None, 1, 3)
CFG = {"databases": [{"name": "m", "driver": "memory"}]}

AGGS = [("c", "count(*)"), ("cv", "count(v)"), ("s", "sum(v)"), ("a", "avg(v)"), ("mi", "min(v)"), ("ma", "max(v)"),
        ("gc", "group_concat(v)"), ("ga", "group_array(v)"), ("gu", "group_uniq_array(v)"), ("bo", "group_bit_or(v)"),
        ("ba", "group_bit_and(v)"), ("bx", "group_bit_xor(v)"), ("ja", "json_arrayagg(v)"),
        ("jo", "json_objectagg(id, v)")]
COLS = [c for c, _ in AGGS]
SEL = ", ".join("%s as %s" % (f, c) for c, f in AGGS)


def agg(rows):
    vs = [r["v"] for r in rows if r["v"] is not None]
    bit_and = bit_or = bit_xor = None
    for v in vs:
        v = int(v)
        bit_and = v if bit_and is None else bit_and & v
        bit_or = v if bit_or is None else bit_or | v
        bit_xor = v if bit_xor is None else bit_xor ^ v
    return {"c": len(rows), "cv": len(vs), "s": sum(vs), "a": sum(vs) / len(vs) if vs else 0,
            "mi": min(vs) if vs else None, "ma": max(vs) if vs else None,
            "gc": ",".join(str(v) for v in vs), "ga": vs, "gu": sorted(set(vs)), "bo": bit_or, "ba": bit_and, "bx": bit_xor,
            "ja": json.dumps(vs) if vs else None, "jo": json.dumps({str(r["id"]): r["v"] for r in rows})}


def norm(rows, cols):
    if isinstance(rows, Err):
        return rows
    out = []
    for r in rows:
        t = []
        for c in cols:
            v = r.get(c, "<missing>")
            if c == "gu" and isinstance(v, (list, set, tuple)):
                v = sorted(v)
            if c == "jo" and isinstance(v, str):
                v = json.dumps(json.loads(v))
            if isinstance(v, float) and c != "gc":
                v = round(v, 9)
            t.append(v)
        out.append(tuple(t))
    return bag(out)


def groups(rows, key):
    g = {}
    for r in rows:
        g.setdefault(key(r), []).append(r)
    return g


def ref_plain(rows):
    return [tuple(agg(rows)[c] for c in COLS)]


def ref_group(rows, keys):
    return [k + tuple(agg(rs)[c] for c in COLS) for k, rs in groups(rows, lambda r: tuple(r[x] for x in keys)).items()]


def rnd(rows):
    return bag([tuple(round(x, 9) if isinstance(x, float) else x for x in r) for r in rows])


def q_group(rows):
    return "select g, %s from m.t group by g" % SEL, ["g"] + COLS, rnd(ref_group(rows, ["g"]))


def q_plain(rows):
    return "select %s from m.t" % SEL, COLS, rnd(ref_plain(rows))


def q_group2(rows):
    return "select g, h, %s from m.t group by g, h" % SEL, ["g", "h"] + COLS, rnd(ref_group(rows, ["g", "h"]))


def q_expr(rows):
    exp = []
    for (k,), rs in groups(rows, lambda r: (r["g"],)).items():
        a = agg(rs)
        exp.append((k, a["s"] / a["c"], a["s"] + a["c"] * 10, sum((r["v"] or 0) + 1 for r in rs if r["v"] is not None),
                    sum(1 if (r["v"] or 0) > 1 else 0 for r in rs), (k or 0) * 10 + a["c"] if k else None))
    return ("select t.g as g, sum(v) / count(*) as x, sum(v) + count(*) * 10 as y, sum(v + 1) as z, sum(if(v > 1, 1, 0)) as w, "
            "if(t.g > 0, t.g * 10 + count(*), null) as k from m.t t group by t.g", ["g", "x", "y", "z", "w", "k"], rnd(exp))


def q_having(rows):
    exp = []
    for (k,), rs in groups(rows, lambda r: (r["g"],)).items():
        a = agg(rs)
        if a["c"] > 1 and a["s"] < 6:
            exp.append((k, a["c"], a["s"]))
    return "select g, count(*) as c, sum(v) as s from m.t group by g having c > 1 and s < 6", ["g", "c", "s"], rnd(exp)


def q_where(rows):
    exp = [(k[0], len(rs), sum(r["v"] for r in rs)) for k, rs in
           groups([r for r in rows if r["v"] is not None and r["v"] >= 1 and r["id"] != 1], lambda r: (r["g"],)).items()]
    return "select g, count(*) as c, sum(v) as s from m.t where v >= 1 and id != 1 group by g", ["g", "c", "s"], rnd(exp)


def q_order(rows):
    exp = sorted([(agg(rs)["s"], -max(r["id"] for r in rs), k[0]) for k, rs in groups(rows, lambda r: (r["g"],)).items()])
    exp = [(k, s, -m) for s, m, k in exp][:2]
    return ("select g, sum(v) as s, max(id) as m from m.t group by g order by s asc, m desc limit 2", ["g", "s", "m"], ("list", exp))


def q_outer(rows):
    per = [agg(rs) for rs in groups(rows, lambda r: (r["g"],)).values()]
    return ("select count(*) as n, sum(a.s) as s, max(a.c) as c from (select g, sum(v) as s, count(*) as c from m.t group by g) a",
            ["n", "s", "c"], rnd([(len(per), sum(p["s"] for p in per), max(p["c"] for p in per))]))


ONE = [q_group, q_plain, q_expr, q_having, q_where, q_order, q_outer]
TWO = [q_group2]
ONE4 = [(1, None), (1, 1), (2, 3), (1, 2)]


def units(tier):
    n1, n2 = (3, 2) if tier == "quick" else (4, 3)
    a1 = list(itertools.product((1, None), V))
    a2 = list(itertools.product((1, 2), ("x", None), V))
    out = []
    for prefix in itertools.product(a1, repeat=2):
        out.append(("one", list(prefix), n1))
    for first in ONE4:
        out.append(("deep", [first], 4 if tier == "quick" else 5))
    out.append(("one-short", [], 1))
    for prefix in itertools.product(a2, repeat=1):
        out.append(("two", list(prefix), n2))
    for k in range(4):
        out.append(("mixed", k, 2 if tier == "quick" else 3))
    return out


def tables(unit):
    kind, prefix, n = unit
    if kind == "one-short":
        for s in sequences(list(itertools.product((1, None), V)), 0, 1):
            yield [{"id": i, "g": g, "v": v} for i, (g, v) in enumerate(s)]
    elif kind == "one":
        for s in sequences(list(itertools.product((1, None), V)), 0, n - 2):
            yield [{"id": i, "g": g, "v": v} for i, (g, v) in enumerate(list(prefix) + list(s))]
    elif kind == "deep":
        for s in sequences(ONE4, n - 1, n - 1):
            yield [{"id": i, "g": g, "v": v} for i, (g, v) in enumerate(list(prefix) + list(s))]
    elif kind == "mixed":
        # three distinct keys, a float and a repeated value
        alpha = [(1, 2.5), (2, 2), (3, 2), (2, None)]
        for s in sequences(alpha, 0, n):
            yield [{"id": i, "g": g, "v": v} for i, (g, v) in enumerate([alpha[prefix]] + list(s) + [(2, 4)])]
    else:
        for s in sequences(list(itertools.product((1, 2), ("x", None), V)), 0, n - 1):
            yield [{"id": i, "g": g, "h": h, "v": v} for i, (g, h, v) in enumerate(list(prefix) + list(s))]


def explore(unit, rec):
    e = Engine(CFG)
    kind, prefix, n = unit
    queries = [q_group, q_plain] if kind == "deep" else TWO if kind == "two" else (ONE if kind != "mixed" else [q_expr, q_having, q_where, q_order, q_outer])
    for rows in tables(unit):
        if not rec.state(kind, [tuple(r.values()) for r in rows]):
            continue
        rec.transitions += 1
        e.put("t", rows, "m")
        for batch in range(0, len(rows) + 2):
            e.run("set @batch=%d" % batch)
            for q in queries:
                if not rows and q in (q_plain, q_outer):
                    continue
                sql, cols, exp = q(rows)
                res = e.query(sql)
                if isinstance(exp, tuple):
                    exp = exp[1]
                    got = tup(res, cols)
                else:
                    got = norm(res, cols)
                rec.expect("%s batch=%d rows=%s" % (sql[:40], batch, [tuple(r.values()) for r in rows]), exp, got,
                           {"script": ["set @batch=%d" % batch, sql], "table": {"m.t": rows}},
                           sample={"rows": rows, "batch": batch, "sql": sql[:60], "result": repr(got)[:120]})
    e.close()
