"""C06  ORDER BY, LIMIT and OFFSET.

Every table content up to the bound x every query form x every ORDER BY list x every LIMIT/OFFSET is executed. The reference is the list of rows
the query selects (computed here), sorted by the keys; rows with equal keys may come in any order.
"""
import itertools

from core import short
from eng import Engine, Err, bag, key, sequences, tup
from q import mk, short_tables

LEVEL = "model_checking"
BOUND = {"quick": "t = every row sequence of length <= 3 over 4 (a,b) rows with NULL a (plus 3 longer tables); 18 query forms (plain, aliased, calculated, ordered by expressions, "
                  "filtered, grouped, HAVING, DISTINCT, join, window, derived, constant) x every ORDER BY list of <= 2 keys asc/desc x LIMIT {none,1,2,3} x OFFSET "
                  "{none,0,1,2} in both notations (two-key lists on tables of length <= 2 and the long ones)",
         "thorough": "as quick with sequences of length <= 4 and ORDER BY lists of <= 3 keys"}
ASSUME = ["NULLs sort before every other value ascending and after descending; the order among rows with equal keys is not claimed",
          "ORDER BY names select-list columns (or columns of the one source table); an alias that shadows a different source column is not used as a key",
          "without ORDER BY a LIMIT/OFFSET page is claimed to be the corresponding slice of the unlimited result of the same query",
          "LIMIT 0 means no limit in this engine and is not claimed; sources are not read in batches (@batch 0): with @batch set each batch is sorted and cut separately by design"]

ROWS = [(None, 1), (1, 2), (2, 1), (1, 1)]
LONG = [((2, 2), (1, 3), (None, 3), (2, 1), (1, 1), (None, 2)), ((3, 1), (2, 1), (3, 1), (2, 1), (1, 1)), ((1, 3), (1, 2), (1, 1), (2, 2))]
U = [(1, 5), (1, 4), (2, 6)]


def col(t):
    return [{"id": i, "a": r[0], "b": r[1]} for i, r in enumerate(t)]


def grp(rows, f):
    out = {}
    for r in rows:
        out.setdefault(f(r), []).append(r)
    return out


def uniq(rows):
    out = []
    for r in rows:
        if r not in out:
            out.append(r)
    return out


# name, select..from..[where], tail after where (group/having), output columns, {order key sql: output column or f(source row)}, rows(t)
FORMS = [
    ("plain", "select id, a, b from T", ["id", "a", "b"], ["id", "a", "b"], lambda t: [(r["id"], r["a"], r["b"]) for r in t]),
    ("subset", "select id from T", ["id"], ["a", "b", "id"], lambda t: [(r["id"],) for r in t]),
    ("alias", "select t.id as x, t.a as y, t.b as z from T t", ["x", "y", "z"], ["t.id", "t.a", "t.b"], lambda t: [(r["id"], r["a"], r["b"]) for r in t]),
    ("alias2", "select t.id as x, t.a as y, t.b as z from T t", ["x", "y", "z"], ["x", "y", "z"], lambda t: [(r["id"], r["a"], r["b"]) for r in t]),
    ("calc", "select id, b * 2 as c, ifnull(a, 9) as d from T", ["id", "c", "d"], ["c", "d", "id"],
     lambda t: [(r["id"], r["b"] * 2, 9 if r["a"] is None else r["a"]) for r in t]),
    ("calcexpr", "select b * 2 as c, id, ifnull(a, 9) as d from T", ["c", "id", "d"], ["b * 2", "ifnull(a, 9)", "id"],
     lambda t: [(r["b"] * 2, r["id"], 9 if r["a"] is None else r["a"]) for r in t]),
    ("groupexpr", "select b, count(*) as c, sum(id) as m from T group by b", ["b", "c", "m"], ["count(*)", "sum(id)", "b"],
     lambda t: [(b, len(rs), sum(r["id"] for r in rs)) for b, rs in grp(t, lambda r: r["b"]).items()]),
    ("where", "select id, a, b from T where b >= 2", ["id", "a", "b"], ["a", "b", "id"], lambda t: [(r["id"], r["a"], r["b"]) for r in t if r["b"] >= 2]),
    ("calcwhere", "select id, b + id as c from T where b + id > 1", ["id", "c"], ["c", "id"], lambda t: [(r["id"], r["b"] + r["id"]) for r in t if r["b"] + r["id"] > 1]),
    ("group", "select b, count(*) as c, max(id) as m from T group by b", ["b", "c", "m"], ["c", "m", "b"],
     lambda t: [(b, len(rs), max(r["id"] for r in rs)) for b, rs in grp(t, lambda r: r["b"]).items()]),
    ("having", "select b, count(*) as c, min(id) as m from T group by b having c > 1", ["b", "c", "m"], ["m", "b", "c"],
     lambda t: [(b, len(rs), min(r["id"] for r in rs)) for b, rs in grp(t, lambda r: r["b"]).items() if len(rs) > 1]),
    ("distinct", "select distinct a, b from T", ["a", "b"], ["a", "b"], lambda t: uniq([(r["a"], r["b"]) for r in t])),
    ("grouponly", "select b from T group by b", ["b"], ["b"], lambda t: [(b,) for b in grp(t, lambda r: r["b"])]),
    ("join", "select t.id as id, u.v as v, t.b as w from T t inner join u u on u.k = t.a", ["id", "v", "w"], ["v", "id", "w"],
     lambda t: [(r["id"], v, r["b"]) for r in t for k, v in U if k == r["a"]]),
    ("leftjoin", "select t.id as id, u.v as v from T t left join u u on u.k = t.a and u.v > 4", ["id", "v"], ["v", "id"],
     lambda t: [x for r in t for x in ([(r["id"], v) for k, v in U if k == r["a"] and v > 4] or [(r["id"], None)])]),
    ("window", "select id, row_number() over (order by b desc, id) as n from T", ["id", "n"], ["n", "id"],
     lambda t: [(r["id"], sorted(t, key=lambda x: (-x["b"], x["id"])).index(r) + 1) for r in t]),
    ("derived", "select id, b from (select id, b from T order by b, id limit 2) d", ["id", "b"], ["b", "id"],
     lambda t: [(r["id"], r["b"]) for r in sorted(t, key=lambda x: (x["b"], x["id"]))[:2]]),
    ("derived2", "select id, c from (select id, a, b + 1 as c from T order by id desc limit 2 offset 1) d where c > 2", ["id", "c"], ["c", "id"],
     lambda t: [(r["id"], r["b"] + 1) for r in sorted(t, key=lambda x: -x["id"])[1:3] if r["b"] + 1 > 2]),
]
SRC = {"subset": {"a", "b"}}       # keys that are source columns not in the output
LIMITS = [(None, None)] + [(n, o) for n in (1, 2, 3) for o in (None, 0, 1, 2)] + [(None, 1), (None, 2)]
FEW = [(None, None), (1, None), (2, 1), (3, None)]


def orderings(keys, n):
    out = [()]
    for m in range(1, n + 1):
        for ks in itertools.permutations(keys, m):
            out += [tuple(zip(ks, ds)) for ds in itertools.product((False, True), repeat=m)]
    return out


def keyval(form, cols, k, row, src):
    k = {"t.id": "x", "t.a": "y", "t.b": "z", "b * 2": "c", "ifnull(a, 9)": "d", "count(*)": "c", "sum(id)": "m"}.get(k, k)
    if k in cols:
        return row[cols.index(k)]
    return src[row[0]][k]          # "subset": row[0] is the id


def sorted_keys(form, cols, rows, order, src):
    rows = list(rows)
    for k, desc in reversed(order):
        rows.sort(key=lambda r: key(keyval(form, cols, k, r, src)), reverse=desc)
    return rows


def judge(rec, e, form, sql, cols, order, lim, rows, src, setup, head=""):
    n, o = lim
    full = sql + (" order by " + ", ".join(k + (" desc" if d else "") for k, d in order) if order else "")
    if n is not None and o is not None and (n + o) % 2:
        full += " limit %d, %d" % (o, n)
    else:
        full += (" limit %d" % n if n is not None else "") + (" offset %d" % o if o is not None else "")
    if not rec.state(full, head, repr(setup["T"])):
        return
    rec.transitions += len(setup["T"])
    got = tup(e.query(full), cols)
    case = {"tables": setup, "sql": full, "before": head}
    k = "%s%s | %s" % (head, full, short_tables({"T": setup["T"]}))
    s = slice(o or 0, None if n is None else (o or 0) + n)
    if isinstance(got, Err):
        return rec.bad(k, "got %r, expected a page of %s" % (got, short(rows)), case)
    if order:
        exp = sorted_keys(form, cols, rows, order, src)[s]
        kv = lambda rs: [tuple(keyval(form, cols, x, r, src) for x, _ in order) for r in rs]       # noqa: E731
        if len(got) != len(exp) or [key(x) for x in kv(got)] != [key(x) for x in kv(exp)]:
            return rec.bad(k, "expected keys %s, got rows %s" % (short(kv(exp)), short(got)), case)
        left = list(rows)
    else:
        base = tup(e.query(sql), cols) if (n, o) != (None, None) else got
        if isinstance(base, Err) or bag(base) != bag(rows):
            return rec.bad(k, "without limit: expected %s, got %s" % (short(rows), short(base)), case)
        if got != base[s]:
            return rec.bad(k, "expected the slice %s, got %s" % (short(base[s]), short(got)), case)
        left = list(rows)
    for r in got:
        if r not in left:
            return rec.bad(k, "row %r is not a result row or appears too often in %s" % (r, short(got)), case)
        left.remove(r)
    rec.ok(got, {"sql": full, "T": short_tables({"T": setup["T"]}), "rows": repr(got)})


def tables(tier):
    return [t for t in sequences(ROWS, 0, 4 if tier == "thorough" else 3)] + LONG


def units(tier):
    ts = tables(tier)
    out = []
    for f in range(len(FORMS)):
        for i in range(0, len(ts), 45):
            out.append((tier, f, ts[i:i + 45]))
    return out


def explore(unit, rec):
    tier, f, ts = unit
    form, sql, cols, keys, fn = FORMS[f]
    e = Engine()
    for t in ts:
        rows = col(t)
        setup = {"T": rows, "u": mk(U, ["k", "v"])}
        e.put("T", rows)
        e.put("u", setup["u"])
        exp = fn(rows)
        src = {r["id"]: r for r in rows}
        big = t in LONG
        deep = (3 if len(t) < 4 else 2) if tier == "thorough" else (1 if len(t) == 3 and not big else 2)
        for order in orderings(keys, deep):
            for lim in LIMITS if big or tier == "thorough" or not order else FEW:
                if lim[0] is None and lim[1] is not None and not order and "group by" in sql:
                    continue            # "group by b offset 1" is not parsed as OFFSET
                judge(rec, e, form, sql, cols, order, lim, exp, src, setup)
    e.close()
