"""C02  DISTINCT and COUNT(DISTINCT ...) see each value once, however input is batched."""
import collections
import itertools

from eng import Engine, bag, sequences
from q import mk, compare

LEVEL = "model_checking"
BOUND = {"quick": "tables of <=3 rows over 6 (g,v) values and over 5 with zeros, and 4 rows over 3 values, each queried with 16 DISTINCT forms at @batch 0..rows+1",
         "thorough": "one more row"}
ASSUME = ["ungrouped aggregates are only asked of non-empty tables"]
CFG = {"databases": [{"name": "m", "driver": "memory"}]}


def grp(rows, k):
    g = {}
    for r in rows:
        g.setdefault(r[k], []).append(r)
    return g.items()


def nd(rows, k):
    return len({r[k] for r in rows if r[k] is not None})


class Seq(list):
    """an ordered expectation"""


def uniq(rows):
    return Seq(dict.fromkeys(rows))


QS = [
    ("select distinct g from m.t", ["g"], lambda t: uniq([(r["g"],) for r in t])),
    ("select distinct g, v from m.t", ["g", "v"], lambda t: uniq([(r["g"], r["v"]) for r in t])),
    ("select distinct v + 1 as w from m.t where v is not null", ["w"], lambda t: uniq([(r["v"] + 1,) for r in t if r["v"] is not None])),
    ("select distinct g, v from m.t where v >= 2", ["g", "v"], lambda t: uniq([(r["g"], r["v"]) for r in t if (r["v"] or 0) >= 2])),
    ("select count(distinct v) as n from m.t", ["n"], lambda t: [(nd(t, "v"),)]),
    ("select count(distinct v) as n, count(*) as c, sum(v) as s, count(distinct g) as m from m.t", ["n", "c", "s", "m"],
     lambda t: [(nd(t, "v"), len(t), sum(r["v"] or 0 for r in t), nd(t, "g"))]),
    ("select g, count(distinct v) as n from m.t group by g", ["g", "n"], lambda t: [(k, nd(rs, "v")) for k, rs in grp(t, "g")]),
    ("select g, count(distinct v) as n, count(v) as c, max(v) as x from m.t group by g", ["g", "n", "c", "x"],
     lambda t: [(k, nd(rs, "v"), sum(1 for r in rs if r["v"] is not None),
                 max([r["v"] for r in rs if r["v"] is not None] or [None])) for k, rs in grp(t, "g")]),
    ("select g, count(distinct v) as n from m.t group by g having n > 1", ["g", "n"],
     lambda t: [(k, nd(rs, "v")) for k, rs in grp(t, "g") if nd(rs, "v") > 1]),
    ("select count(*) as n from (select distinct g, v from m.t) a", ["n"], lambda t: [(len({(r["g"], r["v"]) for r in t}),)]),
    ("select count(distinct g, v) as n from m.t where v is not null", ["n"],
     lambda t: [(len({(r["g"], r["v"]) for r in t if r["v"] is not None}),)] if any(r["v"] is not None for r in t) else []),
    ("select distinct g from m.t order by g limit 1", ["g"],
     lambda t: sorted({(r["g"],) for r in t}, key=lambda x: (x[0] is not None, x[0] or 0))[:1]),
    ("select distinct v from m.t group by g, v", ["v"], lambda t: uniq([(k[1],) for k in dict.fromkeys((r["g"], r["v"]) for r in t)])),
    ("select distinct count(*) as c from m.t group by g, v", ["c"], lambda t: {(c,) for c in collections.Counter((r["g"], r["v"]) for r in t).values()}),
    ("select distinct g, count(distinct v) as n from m.t group by g, id", ["g", "n"], lambda t: {(r["g"], int(r["v"] is not None)) for r in t}),
    ("select distinct max(v) as x from m.t group by g order by x desc limit 2", ["x"],
     lambda t: Seq(sorted({(max([r["v"] for r in rs if r["v"] is not None] or [None], key=lambda v: v or 0),) for k, rs in grp(t, "g")},
                          key=lambda x: (x[0] is None, -(x[0] or 0)))[:2])),
]
A6 = list(itertools.product((1, 2), (None, 2, 3)))
A3 = [(1, 2), (2, 2), (1, None)]
AZ = [(1, 0), (1, 2), (2, 0), (0, 0), (0, None)]          # falsy values are values


def units(tier):
    d = 0 if tier == "quick" else 1
    out = [("a6", [x], 3 + d) for x in A6] + [("empty", [], 0)]
    out += [("az", [x], 3 + d) for x in AZ]
    out += [("a3", [x, y], 4 + d) for x in A3 for y in A3]
    return out


def explore(unit, rec):
    kind, prefix, n = unit
    e = Engine(CFG)
    alpha = {"a6": A6, "az": AZ}.get(kind, A3)
    lo = n - len(prefix) if kind == "a3" else 0
    for s in sequences(alpha, lo, n - len(prefix)):
        t = mk(list(prefix) + list(s), ["g", "v"])
        if not rec.state(t):
            continue
        rec.transitions += 1
        e.put("t", t, "m")
        for b in range(0, len(t) + 2):
            e.run("set @batch=%d" % b)
            for sql, cols, ref in QS:
                if not t and "group by" not in sql and ("count" in sql):
                    continue
                want = ref(t)
                compare(rec, e, sql, cols, want, ordered=isinstance(want, Seq), setup={"m.t": t, "@batch": b})
    e.close()
