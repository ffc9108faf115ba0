"""C04  Joins return the relational join.

The primary table holds every (a, b) combination, the joined tables run through every row sequence up to a bound, and every
ON / WHERE shape of the grammar is executed on the real engine and compared with a nested-loop reference join.
"""
import itertools

from eng import Engine, bag, sequences, tup
from q import compare, mk

LEVEL = "model_checking"
BOUND = {"quick": "t = all 4 (a,b) rows (or empty); u = every row sequence of length <= 2 over 6 (k,v) rows; 5 join kinds x key forms x "
                  "every set of <= 1 (<= 2 on fixed u) extra ON atoms x WHERE atoms; three-table chains over every (u, w) pair of a smaller alphabet; 12 + 7 select lists "
                  "(joined tables left out, aggregates, DISTINCT, constants) x WHERE; a three-row table of parents (40 contents) joined to itself up "
                  "to three times over every key pair",
         "thorough": "as quick with u sequences of length <= 3 and every pair of extra ON atoms on every u, select lists under every WHERE, all 64 contents of the table of parents"}
ASSUME = ["tables are named through an alias, and every ON condition has at least one equality between a joined column and the tables before it "
          "(the engine loads joined rows by key)",
          "JOIN without INNER is this engine's LEFT JOIN; row order of joins is not claimed; join keys are not NULL"]

T = [(a, b) for a in (1, 2) for b in (1, 2)]
UROWS = [(k, v) for k in (1, 2, 3) for v in (1, 2)]

KEYS = [
    ("u.k = t.a", lambda t, u: u["k"] == t["a"]),
    ("t.a = u.k", lambda t, u: u["k"] == t["a"]),
    ("u.k = t.a + 1", lambda t, u: u["k"] == t["a"] + 1),
    ("u.k = t.a and u.v = t.b", lambda t, u: u["k"] == t["a"] and u["v"] == t["b"]),
    ("t.b = u.v and u.k = t.a + t.b", lambda t, u: u["v"] == t["b"] and u["k"] == t["a"] + t["b"]),
]
EXTRA = [
    ("u.v = 1", lambda t, u: u["v"] == 1), ("u.v != 1", lambda t, u: u["v"] != 1), ("u.v > 1", lambda t, u: u["v"] > 1),
    ("u.v >= 1", lambda t, u: True), ("u.v < 2", lambda t, u: u["v"] < 2), ("u.v <= 1", lambda t, u: u["v"] <= 1),
    ("2 > u.v", lambda t, u: 2 > u["v"]), ("u.v in (1, 2)", lambda t, u: True), ("u.v in (2)", lambda t, u: u["v"] == 2),
    ("u.k = 1", lambda t, u: u["k"] == 1), ("u.k > 1", lambda t, u: u["k"] > 1),
    ("t.b = 1", lambda t, u: t["b"] == 1), ("t.b > 1", lambda t, u: t["b"] > 1), ("2 = t.b", lambda t, u: t["b"] == 2),
    ("t.b in (1, 3)", lambda t, u: t["b"] == 1),
    ("u.v > t.b", lambda t, u: u["v"] > t["b"]), ("t.b >= u.v", lambda t, u: t["b"] >= u["v"]), ("u.v + 1 = t.b + t.a", lambda t, u: u["v"] + 1 == t["a"] + t["b"]),
    ("u.v in (t.b, 5)", lambda t, u: u["v"] == t["b"]), ("not u.v = 1", lambda t, u: u["v"] != 1),
    ("(u.v = 1 or t.b = 2)", lambda t, u: u["v"] == 1 or t["b"] == 2), ("u.v between 1 and t.b", lambda t, u: 1 <= u["v"] <= t["b"]),
    ("u.v is not null", lambda t, u: True),
    ("u.v != 2", lambda t, u: u["v"] != 2), ("u.v > 0", lambda t, u: True), ("u.v >= 2", lambda t, u: u["v"] >= 2), ("u.v < 3", lambda t, u: True),
    ("u.v <= 2", lambda t, u: True), ("u.v in (1, 3)", lambda t, u: u["v"] == 1), ("u.v not in (2, 4)", lambda t, u: u["v"] != 2),
    ("u.v = 2", lambda t, u: u["v"] == 2),
]


def eq(x, y):
    return x is not None and x == y


WHERE = [
    ("", lambda t, u: True), ("t.a = 1", lambda t, u: eq(t["a"], 1)), ("u.v = 1", lambda t, u: eq(u["v"], 1)),
    ("u.v is null", lambda t, u: u["v"] is None), ("u.v is not null", lambda t, u: u["v"] is not None),
    ("u.v in (2, 7)", lambda t, u: eq(u["v"], 2)), ("u.v = t.b", lambda t, u: u["v"] is not None and eq(t["b"], u["v"])),
    ("t.b = 2 or u.v = 1", lambda t, u: eq(t["b"], 2) or eq(u["v"], 1)), ("u.v is null or t.b = 1", lambda t, u: u["v"] is None or eq(t["b"], 1)),
    ("t.a = 1 and u.v = 2 and t.b = 1", lambda t, u: eq(t["a"], 1) and eq(u["v"], 2) and eq(t["b"], 1)),
    ("u.v between t.b and 2", lambda t, u: u["v"] is not None and t["b"] is not None and t["b"] <= u["v"] <= 2),
    ("t.a = 1 and (u.v = 1 or u.k is null)", lambda t, u: eq(t["a"], 1) and (eq(u["v"], 1) or u["k"] is None)),
]
KINDS = ["left join", "join", "inner join", "right join"]
NT = {"id": None, "a": None, "b": None}
NU = {"id": None, "k": None, "v": None}
NW = {"id": None, "k": None, "z": None}


def join(kind, left, right, on, null_left, null_right):
    """left: list of env tuples; right: rows; returns env tuples."""
    out, used = [], set()
    for env in left:
        hit = False
        for i, r in enumerate(right):
            if on(env, r):
                out.append(env + (r,))
                used.add(i)
                hit = True
        if not hit and kind in ("left join", "join"):
            out.append(env + (null_right,))
    if kind == "right join":
        for i, r in enumerate(right):
            if i not in used:
                out.append(null_left + (r,))
    return out


def two(kind, t, u, on, where):
    res = join(kind, [(x,) for x in t], u, lambda env, r: on(env[0], r), (NT,), NU)
    return [(x["a"], x["b"], y["k"], y["v"]) for x, y in res if where(x, y)]


COLS = ["ta", "tb", "uk", "uv"]
SELECT = "select t.a as ta, t.b as tb, u.k as uk, u.v as uv from t t "


def check2(rec, e, kind, on, cond, wh, wf, setup):
    if kind == "right join":        # the joined side is t here: the key has to be a plain column of t
        on = on.replace("u.k = t.a + 1", "t.a = u.k - 1")
    if kind == ",":
        sql = SELECT.rstrip() + ", u u where " + on + (" and (%s)" % wh if wh else "")
        exp = two("inner join", setup["t"], setup["u"], cond, wf)
    else:
        sql = SELECT + kind + " u u on " + on + (" where " + wh if wh else "")
        exp = two(kind, setup["t"], setup["u"], cond, wf)
    if not rec.state(sql, repr(setup)):
        return
    rec.transitions += len(setup["t"]) * max(1, len(setup["u"]))
    compare(rec, e, sql, COLS, exp, setup=setup)


def g2(rows, keyf, valf):
    out = {}
    for r in rows:
        out.setdefault(keyf(r), []).append(r)
    return [k + valf(rs) for k, rs in out.items()]


def dn(rows, f):
    return len({f(r) for r in rows} - {None})


# select lists that leave joined tables out, or only aggregate: the row multiplicity has to come from the join itself
LISTS = [
    ("t.a as x", "", ["x"], lambda R: [(t["a"],) for t, u in R]),
    ("t.b as x, 7 as y", "", ["x", "y"], lambda R: [(t["b"], 7) for t, u in R]),
    ("7 as y, t.a + t.b as x", "", ["y", "x"], lambda R: [(7, None if t["a"] is None else t["a"] + t["b"]) for t, u in R]),
    ("u.v as x", "", ["x"], lambda R: [(u["v"],) for t, u in R]),
    ("t.a as x, count(*) as c", " group by t.a", ["x", "c"], lambda R: g2(R, lambda r: (r[0]["a"],), lambda rs: (len(rs),))),
    ("t.a as x, count(1) as c, count(t.b) as d", " group by t.a", ["x", "c", "d"],
     lambda R: g2(R, lambda r: (r[0]["a"],), lambda rs: (len(rs), sum(1 for t, u in rs if t["b"] is not None)))),
    ("u.v as x, count(*) as c, count(distinct t.b) as d, max(t.b) as m", " group by u.v", ["x", "c", "d", "m"],
     lambda R: g2(R, lambda r: (r[1]["v"],), lambda rs: (len(rs), dn(rs, lambda r: r[0]["b"]), max([t["b"] for t, u in rs if t["b"]] or [None])))),
    ("t.b as x, u.k as y, count(u.v) as c", " group by t.b, u.k", ["x", "y", "c"],
     lambda R: g2(R, lambda r: (r[0]["b"], r[1]["k"]), lambda rs: (sum(1 for t, u in rs if u["v"] is not None),))),
    ("distinct t.a as x", "", ["x"], lambda R: [(x,) for x in {t["a"] for t, u in R}]),
    ("distinct t.a as x, u.v as y", "", ["x", "y"], lambda R: list({(t["a"], u["v"]) for t, u in R})),
    ("t.a as x", " group by t.a", ["x"], lambda R: [(x,) for x in {t["a"] for t, u in R}]),
    ("count(*) as c, count(u.v) + count(t.b) as d", "", ["c", "d"],
     lambda R: [(len(R), sum((u["v"] is not None) + (t["b"] is not None) for t, u in R))] if R else None),
]


def lists2(rec, e, kind, setup, tier):
    for wh, wf in WHERE if tier == "thorough" else [WHERE[0], WHERE[2], WHERE[7]]:
        R = [(x, y) for x, y in join(kind, [(x,) for x in setup["t"]], setup["u"], lambda env, r: KEYS[0][1](env[0], r), (NT,), NU) if wf(x, y)]
        for sel, tail, cols, f in LISTS:
            exp = f(R)
            if exp is None:
                continue        # aggregate over nothing
            sql = "select %s from t t %s u u on %s%s%s" % (sel, kind, KEYS[0][0], " where " + wh if wh else "", tail)
            if rec.state(sql, repr(setup)):
                rec.transitions += len(setup["t"]) * max(1, len(setup["u"]))
                compare(rec, e, sql, cols, exp, setup=setup)


LISTS3 = [
    ("t.b as x", "", ["x"], lambda R: [(t["b"],) for t, u, w in R]),
    ("u.v as x", "", ["x"], lambda R: [(u["v"],) for t, u, w in R]),
    ("w.z as x, t.a as y", "", ["x", "y"], lambda R: [(w["z"], t["a"]) for t, u, w in R]),
    ("t.a as x, count(*) as c", " group by t.a", ["x", "c"], lambda R: g2(R, lambda r: (r[0]["a"],), lambda rs: (len(rs),))),
    ("u.v as x, count(*) as c, count(w.z) as d", " group by u.v", ["x", "c", "d"],
     lambda R: g2(R, lambda r: (r[1]["v"],), lambda rs: (len(rs), sum(1 for r in rs if r[2]["z"] is not None)))),
    ("w.z as x, count(u.v) as c, max(t.b) as d", " group by w.z", ["x", "c", "d"],
     lambda R: g2(R, lambda r: (r[2]["z"],), lambda rs: (sum(1 for r in rs if r[1]["v"] is not None), max(r[0]["b"] for r in rs)))),
    ("w.z + u.v as x", "", ["x"], lambda R: [(None if w["z"] is None or u["v"] is None else w["z"] + u["v"],) for t, u, w in R]),
]


def setup2(e, us, t=T):
    s = {"t": mk(t, ["a", "b"]), "u": mk(us, ["k", "v"])}
    for k, v in s.items():
        e.put(k, v)
    return s


# -- three tables --------------------------------------------------------------------------------------------------------------
WROWS = [(1, 1), (2, 2), (1, 3)]
U3 = [(1, 1), (1, 2), (2, 1)]
KEY2 = [("w.k = u.v", lambda t, u, w: eq(w["k"], u["v"])), ("w.k = t.b", lambda t, u, w: eq(w["k"], t["b"])),
        ("u.v = w.k and w.z > t.b", lambda t, u, w: eq(w["k"], u["v"]) and w["z"] > t["b"]),
        ("w.k = u.v and t.a = 1", lambda t, u, w: eq(w["k"], u["v"]) and t["a"] == 1),
        ("w.k = u.v and w.z = t.b", lambda t, u, w: eq(w["k"], u["v"]) and eq(w["z"], t["b"])),
        ("w.k = t.b and w.z in (1, 2) and u.v is not null", lambda t, u, w: eq(w["k"], t["b"]) and w["z"] in (1, 2) and u["v"] is not None)]
WHERE3 = [("", lambda t, u, w: True), ("w.z is null", lambda t, u, w: w["z"] is None), ("w.z = 1 or u.v = 2", lambda t, u, w: eq(w["z"], 1) or eq(u["v"], 2)),
          ("t.a = 1 and w.k = t.b", lambda t, u, w: eq(t["a"], 1) and eq(w["k"], t["b"]))]


def units(tier):
    out = []
    n = 3 if tier == "thorough" else 2
    useqs = list(sequences(UROWS, 0, n)) if n == 2 else list(sequences(UROWS, 0, 2)) + list(itertools.combinations(UROWS, 3))
    for i in range(0, len(useqs), 3):
        out.append(("one", tier, useqs[i:i + 3]))
    for kind in KINDS + [","]:
        for k in range(len(KEYS)):
            out.append(("pairs", kind, k))
    useq3 = [s for s in sequences(U3, 0, 2) if len(set(s)) == len(s)] + [tuple(U3)]
    for ms in itertools.product((0, 1, 2, 3), repeat=3):
        if tier == "thorough" or ms[0] <= 1 or ms[2] == 1:
            out.append(("self", ms, tier))
    for us in useq3:
        for k2 in range(len(KEY2)):
            out.append(("three", us, k2, tier))
    return out


# -- one table joined to itself, again and again ---------------------------------------------------------------------------------
LINKS = [("m", "id"), ("id", "m"), ("id", "id"), ("m", "m")]
NP = {"id": None, "m": None, "n": None}


def selfs(rec, e, ms, tier):
    rows = [{"id": i + 1, "m": m, "n": "abc"[i]} for i, m in enumerate(ms)]
    e.put("p", rows)
    e.put("t", [{"g": g} for g in (1, 2, 3, 9)])

    def run(sql, cols, env):
        if rec.state(sql, ms):
            rec.transitions += len(rows) ** (1 + sql.count("join"))
            compare(rec, e, sql, cols, env, setup={"p": rows})
    for (l1, r1), k1, base in itertools.product(LINKS, ["left join", "inner join"], ["p", "t"]):
        if base == "t":
            if r1 == "m" or l1 == "m":
                continue
            first, left = "t x", [({"id": g, "m": None, "n": g},) for g in (1, 2, 3, 9)]
            on1, name = "x.g = y.id", "x.g"
        else:
            first, left = "p x", [(r,) for r in rows]
            on1, name = "x.%s = y.%s" % (l1, r1), "x.n"
        e1 = join(k1, left, rows, lambda env, r: env[0][l1] == r[r1], (NP,), NP)
        for src, (l2, r2), k2 in itertools.product((1, 0), LINKS, ["left join", "inner join"]):
            if src == 0 and base == "t":
                continue
            e2 = join(k2, e1, rows, lambda env, r: env[src][l2] is not None and env[src][l2] == r[r2], (NP, NP), NP)
            on2 = "%s.%s = z.%s" % ("xy"[src], l2, r2)
            if l2 == "m" and r2 == "id" and src:
                on2 = "z.id = y.m"
            body = "from %s %s p y on %s %s p z on %s" % (first, k1, on1, k2, on2)
            run("select %s as a, y.n as b, z.n as c %s" % (name, body), ["a", "b", "c"], [(x["n"], y["n"], z["n"]) for x, y, z in e2])
            run("select %s as a, z.n as c %s" % (name, body), ["a", "c"], [(x["n"], z["n"]) for x, y, z in e2])
            if k1 == k2:
                run("select z.n as c, count(*) as k, count(y.n) as l %s group by z.n" % body, ["c", "k", "l"],
                    g2(e2, lambda r: (r[2]["n"],), lambda rs: (len(rs), sum(1 for r in rs if r[1]["n"] is not None))))
                run("select %s as a, z.n as c %s where z.id is not null and y.id > 1" % (name, body), ["a", "c"],
                    [(x["n"], z["n"]) for x, y, z in e2 if z["id"] is not None and y["id"] is not None and y["id"] > 1])
            for (l3, r3), on in itertools.product(LINKS if tier == "thorough" or l2 == l1 and r2 == r1 else (), (0, 1, 2)):
                if on == 0 and base == "t" or tier != "thorough" and on != 2 and (k1 != k2 or l3 != "m"):
                    continue
                e3 = join("left join", e2, rows, lambda env, r: env[on][l3] is not None and env[on][l3] == r[r3], (NP, NP, NP), NP)
                body3 = "%s left join p w on %s.%s = w.%s" % (body, "xyz"[on], l3, r3)
                run("select %s as a, y.n as b, z.n as c, w.n as d %s" % (name, body3), ["a", "b", "c", "d"],
                    [(x["n"], y["n"], z["n"], w["n"]) for x, y, z, w in e3])
                run("select %s as a, w.n as d, count(*) as k %s group by %s, w.n" % (name, body3, name), ["a", "d", "k"],
                    g2(e3, lambda r: (r[0]["n"], r[3]["n"]), lambda rs: (len(rs),)))


def explore(unit, rec):
    e = Engine()
    kind = unit[0]
    if kind == "self":
        selfs(rec, e, unit[1], unit[2])
        e.close()
        return
    if kind == "one":
        for us in unit[2]:
            setup = setup2(e, us)
            for jk in KINDS + [","]:
                for ki, (on, kf) in enumerate(KEYS):
                    for w, wf in WHERE if ki == 0 else WHERE[:1]:
                        check2(rec, e, jk, on, kf, w, wf, setup)
                for on, kf in KEYS[:1]:
                    for x, xf in EXTRA:
                        check2(rec, e, jk, on + " and " + x, lambda t, u: kf(t, u) and xf(t, u), "", WHERE[0][1], setup)
                        if unit[1] == "thorough":
                            for x2, xf2 in EXTRA:
                                check2(rec, e, jk, on + " and " + x + " and " + x2, lambda t, u: kf(t, u) and xf(t, u) and xf2(t, u),
                                       "", WHERE[0][1], setup)
            for jk in KINDS:
                lists2(rec, e, jk, setup, unit[1])
            setup = setup2(e, us, [])
            check2(rec, e, "left join", KEYS[0][0], KEYS[0][1], "", WHERE[0][1], setup)
            check2(rec, e, "right join", KEYS[0][0], KEYS[0][1], "", WHERE[0][1], setup)
    elif kind == "pairs":
        jk, (on, kf) = unit[1], KEYS[unit[2]]
        setup = setup2(e, UROWS + [(1, 1)])
        for (x, xf), (y, yf) in itertools.product(EXTRA, repeat=2):
            if unit[2] and (x > y or "u.k" in x or "u.k" in y):
                continue
            check2(rec, e, jk, "%s and %s and %s" % (x, on, y) if x < y else "%s and %s and %s" % (on, x, y),
                   lambda t, u: kf(t, u) and xf(t, u) and yf(t, u), "", WHERE[0][1], setup)
        for (x, xf), (w, wf) in itertools.product(EXTRA, WHERE):
            check2(rec, e, jk, on + " and " + x, lambda t, u: kf(t, u) and xf(t, u), w, wf, setup)
    else:
        us, (on2, f2) = unit[1], KEY2[unit[2]]
        cols = ["ta", "tb", "uv", "wz"]
        for ws in sequences(WROWS, 0, 2):
            setup = setup2(e, us)
            setup["w"] = mk(ws, ["k", "z"])
            e.put("w", setup["w"])
            tt, uu, ww = setup["t"], setup["u"], setup["w"]
            for k1, k2 in itertools.product(["left join", "inner join"], repeat=2):
                r1 = join(k1, [(x,) for x in tt], uu, lambda env, r: r["k"] == env[0]["a"], (NT,), NU)
                r2 = join(k2, r1, ww, lambda env, r: f2(env[0], env[1], r), (NT, NU), NW)
                for wh, wf in WHERE3 if unit[3] == "thorough" else WHERE3[::2]:
                    R = [x for x in r2 if wf(*x)]
                    for sel, tail, cs, f in LISTS3:
                        sql = "select %s from t t %s u u on u.k = t.a %s w w on %s%s%s" % (sel, k1, k2, on2, " where " + wh if wh else "", tail)
                        if rec.state(sql, us, ws):
                            rec.transitions += len(tt) * max(1, len(uu)) * max(1, len(ww))
                            compare(rec, e, sql, cs, f(R), setup=setup)
                for wh, wf in WHERE3 if k1 == "left join" else WHERE3[:2]:
                    sql = "select t.a as ta, t.b as tb, u.v as uv, w.z as wz from t t %s u u on u.k = t.a %s w w on %s%s" % (
                        k1, k2, on2, " where " + wh if wh else "")
                    if rec.state(sql, us, ws):
                        rec.transitions += len(tt) * max(1, len(uu)) * max(1, len(ww))
                        compare(rec, e, sql, cols, [(x["a"], x["b"], y["v"], z["z"]) for x, y, z in r2 if wf(x, y, z)], setup=setup)
            # comma form
            if "is not null" not in on2:
                r1 = [(x, y, z) for x in tt for y in uu for z in ww if y["k"] == x["a"] and f2(x, y, z)]
                sql = "select t.a as ta, t.b as tb, u.v as uv, w.z as wz from t t, u u, w w where u.k = t.a and %s" % on2
                if rec.state(sql, us, ws):
                    rec.transitions += len(tt) * max(1, len(uu)) * max(1, len(ww))
                    compare(rec, e, sql, cols, [(x["a"], x["b"], y["v"], z["z"]) for x, y, z in r1], setup=setup)
    e.close()
