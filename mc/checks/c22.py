"""C22  An expression has the value its operators give, nested in any way, wherever it stands.

Every expression tree of the bound is computed by the engine for every row of a table that holds every combination of the values, in every place an expression can stand, and compared with an independent evaluator.
"""
import gc
import itertools

from eng import Engine, Err
from core import watchdog

LEVEL = "model_checking"
COMMON = ("Expressions built from %d operators (+ - * / unary -, = != < <= > >=, AND OR NOT, IS [NOT] NULL, IS TRUE, IS NOT FALSE, [NOT] IN of one to four values, [NOT] BETWEEN, [NOT] LIKE, IF, CASE with and without "
          "a value, with one to four WHENs, constants or expressions to compare with, with and without ELSE, IFNULL, COALESCE of three and four, CONCAT), over columns of integers and texts, constants and NULL; written with no more parentheses than "
          "needed and with all of them; over a table of 25 rows, which holds every pair of 0, 1, 2, -3 and NULL, and 'x', '', '1' and NULL: every operator over every choice of the first two to eight atoms for each operand; every operator in every operand "
          "of every operator (three choices of atoms); ")
BOUND = {}
ASSUME = ["AND, OR, BETWEEN and IN of one value count a NULL among their operands as false: where standard SQL gives NULL both NULL and 0 are accepted, and an expression whose value depends on which of the two it is is not judged for that row",
          "a WHERE condition compares NULL as a value (see C03), so rows for which the condition is NULL are not judged there", "numbers are compared with numbers and texts with texts; %, DIV, XOR, REGEXP and the date operators are not part of it",
          "ORDER BY takes expressions that contain a column"]

NUMS = [0, 1, 2, -3, None]
TEXTS = ["x", "", "1", None]
# (template, precedence of the result, minimal precedence of each operand, kinds of operands, kind of result, function)
# precedences: 1 or, 2 and, 3 not, 4 comparison, 5 + -, 6 * / %, 7 unary, 9 atom or function


class Skip(Exception):
    """the value depends on how NULL counts in AND, OR, BETWEEN and one-element IN, which is not claimed"""


class N0(object):
    """NULL or 0"""


N0 = N0()


def truth(v):
    return None if v is None or v is N0 else v != 0


def sure(*args):
    if any(x is N0 for x in args):
        raise Skip()


def strict(f):
    def g(*a):
        sure(*a)
        return None if any(x is None for x in a) else f(*a)
    return g


def and_(x, y):
    p, q = truth(x), truth(y)
    return 0 if p is False or q is False else N0 if p is None or q is None else 1


def or_(x, y):
    p, q = truth(x), truth(y)
    return 1 if p or q else N0 if p is None or q is None else 0


def not_(x):
    sure(x)
    return None if x is None else int(not truth(x))


def in_(x, *vs):
    sure(x, *vs)
    if x is None:
        return N0 if len(vs) == 1 else None
    return 1 if any(v == x for v in vs if v is not None) else 0 if None not in vs else N0 if len(vs) == 1 else None


def between(x, l, h):
    sure(x, l, h)
    return and_(strict(lambda p, q: int(p >= q))(x, l), strict(lambda p, q: int(p <= q))(x, h))


def div(x, y):
    return None if y == 0 else x / y


def case(*args):
    default = args[-1] if len(args) % 2 else None
    for i in range(0, len(args) - 1, 2):
        if truth(args[i]):
            return args[i + 1]
    return default


def switch(x, *args):
    sure(x, *args[:-1:2])
    default = args[-1] if len(args) % 2 else None
    for i in range(0, len(args) - 1, 2):
        if x is not None and args[i] == x:
            return args[i + 1]
    return default


def first(*args):
    for x in args:
        sure(x)
        if x is not None:
            break
    return next((x for x in args if x is not None), None)


def text(*args):
    if any(isinstance(x, float) for x in args):
        raise Skip()
    return "".join(str(x) for x in args)


def like(p):
    import re
    return strict(lambda x: int(bool(re.fullmatch(p, str(x), re.S | re.I))))


def is_null(x):
    sure(x)
    return int(x is None)


def not_false(x):
    sure(x)
    return int(truth(x) is not False)


OPS = {
    "add": ("{} + {}", 5, (5, 6), "nn", "n", strict(lambda x, y: x + y)), "sub": ("{} - {}", 5, (5, 6), "nn", "n", strict(lambda x, y: x - y)),
    "mul": ("{} * {}", 6, (6, 7), "nn", "n", strict(lambda x, y: x * y)), "div": ("{} / {}", 6, (6, 7), "nn", "n", strict(div)), "neg": ("-{}", 7, (9,), "n", "n", strict(lambda x: -x)),
    "eq": ("{} = {}", 4, (5, 5), "nn", "b", strict(lambda x, y: int(x == y))), "ne": ("{} != {}", 4, (5, 5), "nn", "b", strict(lambda x, y: int(x != y))),
    "lt": ("{} < {}", 4, (5, 5), "nn", "b", strict(lambda x, y: int(x < y))), "le": ("{} <= {}", 4, (5, 5), "nn", "b", strict(lambda x, y: int(x <= y))),
    "gt": ("{} > {}", 4, (5, 5), "nn", "b", strict(lambda x, y: int(x > y))), "ge": ("{} >= {}", 4, (5, 5), "nn", "b", strict(lambda x, y: int(x >= y))),
    "teq": ("{} = {}", 4, (5, 5), "tt", "b", strict(lambda x, y: int(x == y))), "tlt": ("{} < {}", 4, (5, 5), "tt", "b", strict(lambda x, y: int(x < y))),
    "and": ("{} and {}", 2, (2, 3), "bb", "b", and_), "or": ("{} or {}", 1, (1, 2), "bb", "b", or_), "not": ("not {}", 3, (4,), "b", "b", not_),
    "isnull": ("{} is null", 4, (9,), "n", "b", is_null), "notnull": ("{} is not null", 4, (9,), "n", "b", lambda x: 1 - is_null(x)), "tisnull": ("{} is null", 4, (9,), "t", "b", is_null),
    "istrue": ("{} is true", 4, (9,), "b", "b", lambda x: int(truth(x) is True)), "notfalse": ("{} is not false", 4, (9,), "b", "b", not_false),
    "in": ("{} in ({}, {})", 4, (5, 1, 1), "nnn", "b", in_), "in1": ("{} in ({})", 4, (5, 1), "nn", "b", in_), "notin": ("{} not in ({}, {})", 4, (5, 1, 1), "nnn", "b", lambda *a: not_(in_(*a))),
    "in4": ("{} in ({}, 7, {}, -3)", 4, (5, 1, 1), "nnn", "b", lambda x, p, q: in_(x, p, 7, q, -3)),
    "tin": ("{} in ({}, 'x')", 4, (5, 1), "tt", "b", lambda x, y: in_(x, y, "x")),
    "between": ("{} between {} and {}", 4, (5, 5, 5), "nnn", "b", between), "notbetween": ("{} not between {} and {}", 4, (5, 5, 5), "nnn", "b", lambda *a: not_(between(*a))),
    "like": ("{} like '%x%'", 4, (5,), "t", "b", like(".*x.*")), "notlike": ("{} not like '_'", 4, (5,), "t", "b", lambda x: not_(like(".")(x))),
    "if": ("if({}, {}, {})", 9, (1, 1, 1), "bnn", "n", lambda c, x, y: x if truth(c) else y), "tif": ("if({}, {}, {})", 9, (1, 1, 1), "btt", "t", lambda c, x, y: x if truth(c) else y),
    "case": ("case when {} then {} when {} then {} else {} end", 9, (1, 1, 1, 1, 1), "bnbnn", "n", case), "case0": ("case when {} then {} when {} then {} end", 9, (1, 1, 1, 1), "bnbn", "n", case),
    "case3": ("case when {} then 4 when {} then {} when {} then 6 when {} then {} end", 9, (1, 1, 1, 1, 1, 1), "bbnbbn", "n", lambda p, q, x, r, u, y: case(p, 4, q, x, r, 6, u, y)),
    "tcase": ("case when {} then {} end", 9, (1, 1), "bt", "t", case), "switch": ("case {} when {} then {} when {} then {} else {} end", 9, (1, 1, 1, 1, 1, 1), "nnnnnn", "n", switch),
    "switch1": ("case {} when 1 then {} when 0 then {} when 1 then 7 else {} end", 9, (1, 1, 1, 1), "nnnn", "n", lambda x, p, q, r: switch(x, 1, p, 0, q, r)),
    "switch0": ("case {} when 2 then {} when -3 then {} end", 9, (1, 1, 1), "nnn", "n", lambda x, p, q: switch(x, 2, p, -3, q)),
    "tswitch": ("case {} when 'x' then {} when '' then {} when '#end' then 8 when ':1' then 9 else {} end", 9, (1, 1, 1, 1), "tnnn", "n", lambda x, p, q, r: switch(x, "x", p, "", q, r)),
    "tswitch1": ("case {} when '1' then {} end", 9, (1, 1), "tt", "t", lambda x, p: switch(x, "1", p)),
    "ifnull": ("ifnull({}, {})", 9, (1, 1), "nn", "n", first), "coalesce": ("coalesce({}, {}, {})", 9, (1, 1, 1), "nnn", "n", first), "tifnull": ("ifnull({}, {})", 9, (1, 1), "tt", "t", first),
    "coalesce4": ("coalesce({}, {}, {}, 5)", 9, (1, 1, 1), "nnn", "n", lambda *a: first(*a, 5)),
    "concat": ("concat({}, {})", 9, (1, 1), "tt", "t", strict(text)), "ifconcat": ("concat({}, 'k')", 9, (1,), "n", "t", strict(lambda x: text(x, "k"))),
}
ATOMS = {"n": ["a", "b", "1", "c", "2", "-2", "null", "0"], "t": ["s", "u", "'x'", "''"], "b": ["a", "b", "1", "c"]}
FITS = {"n": "nb", "b": "nb", "t": "t"}
SMALL = ["sub", "div", "neg", "eq", "lt", "and", "or", "not", "isnull", "in", "between", "if", "case0", "switch1", "ifnull", "teq", "tif", "tcase", "concat", "notin"]
NEW = ["sub", "lt", "and", "not", "between", "if", "case0", "switch1", "coalesce", "teq", "tcase"]


BOUND["quick"] = COMMON % len(OPS) + "of 20 operators, every operator in every operand of every operator in every operand; of 11 operators, every two in any two operands of each of the 20; and the first with the operators nested once (of the 20), in 16 places: " \
    "column of a query, of a query with an alias, a join, a derived table, a union, a GROUP BY query and a window, argument of IF, of an aggregate and of a window function, WHERE with and without alias and of a join, HAVING, GROUP BY, ORDER BY, and with constants and variables in place of the columns, with and without a table"
BOUND["thorough"] = BOUND["quick"].replace("of 20 operators, every", "every").replace("of 11 operators, every two in any two operands of each of the 20", "every two operators in any two operands of every operator").replace(" (of the 20)", "")


class Node(object):
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op, self.args = op, args


def sql(x, names, full=False, need=1):
    if isinstance(x, str):
        return "(%s)" % x if x.startswith("-") and need >= 6 else names.get(x, x)
    template, prec, needs = OPS[x.op][:3]
    out = template.format(*[sql(a, names, full, n) for a, n in zip(x.args, needs)])
    return "(%s)" % out if prec < need or full and prec < 9 else out


def value(x, row):
    if isinstance(x, str):
        return row[x] if x in row else None if x == "null" else x[1:-1] if x.startswith("'") else int(x)
    return OPS[x.op][5](*[value(a, row) for a in x.args])


def values(x):
    out = []
    for row in TABLE:
        try:
            out.append(value(x, row))
        except Skip:
            out.append(Skip)
    return out


def kind(x):
    return OPS[x.op][4]


TABLE = [{"id": i + 1, "a": a, "b": y, "c": (i * 7) % 5 - 2, "s": s, "u": u} for i, (a, y, s, u) in enumerate(
    [(a, y, TEXTS[(i + j) % 4], TEXTS[(i * 2 + j + 1) % 4]) for i, a in enumerate(NUMS) for j, y in enumerate(NUMS)])]
COLUMNS = ("a", "b", "c", "s", "u")


def same(want, got):
    if want is Skip:
        return True
    if want is N0:
        return got is None or got == 0
    if isinstance(want, str) or want is None or got is None or isinstance(got, str):
        return want == got and isinstance(want, str) == isinstance(got, str)
    return isinstance(got, (int, float)) and abs(want - got) < 1e-9 * max(1, abs(want))


def leaves(op, shift):
    """atoms for every operand of an operator"""
    n = {"n": shift, "t": shift, "b": shift}
    out = []
    for k in OPS[op][3]:
        out.append(ATOMS[k][n[k] % len(ATOMS[k])])
        for x in n:
            n[x] += 1
    return out


def flat(tier):
    """one operator over all atoms (of the first ones where there are many operands)"""
    for op, o in OPS.items():
        width = {1: 8, 2: 8, 3: 5, 4: 3, 5: 3, 6: 2}[len(o[3])]
        for args in itertools.product(*[ATOMS[k][:width] for k in o[3]]):
            yield Node(op, args)


def nested(outer, inner, deeper=None, shifts=(0, 1, 5)):
    """one operand is an operator (one operand of which is one)"""
    for i, k in enumerate(OPS[outer][3]):
        if OPS[inner][4] not in FITS[k]:
            continue
        for j in range(len(OPS[inner][3])) if deeper else (0,):
            if deeper and OPS[deeper][4] not in FITS[OPS[inner][3][j]]:
                continue
            for shift in shifts:
                child = leaves(inner, shift)
                if deeper:
                    child[j] = Node(deeper, leaves(deeper, shift + 1))
                args = leaves(outer, shift + 2)
                args[i] = Node(inner, child)
                yield Node(outer, args)


def pairs(outer, left, right):
    """two operands are operators"""
    ks = OPS[outer][3]
    for i, j in itertools.combinations(range(len(ks)), 2):
        if OPS[left][4] in FITS[ks[i]] and OPS[right][4] in FITS[ks[j]]:
            args = leaves(outer, 1)
            args[i], args[j] = Node(left, leaves(left, 0)), Node(right, leaves(right, 1))
            yield Node(outer, args)


def trees(what, arg, tier):
    if what == "flat":
        return [x for x in flat(tier) if x.op == arg]
    if what == "nested":
        return [x for inner in OPS for x in nested(arg, inner)]
    every = list(OPS) if tier == "thorough" else SMALL
    if what == "deep":
        return [x for inner in every for deeper in every for x in nested(arg, inner, deeper, (0,))]
    every = list(OPS) if tier == "thorough" else NEW
    return [x for left in every for right in every for x in pairs(arg, left, right)]


def units(tier):
    out = [(what, op, tier) for op in OPS for what in ("flat", "nested", "place")]
    return out + [(what, op, tier) for op in (OPS if tier == "thorough" else SMALL) for what in ("deep", "pairs")]


def fresh():
    gc.collect()
    e = Engine({"databases": [{"name": "m", "driver": "memory"}]})
    fill(e)
    return e


def fill(e):
    e.clear()
    e.put("t", TABLE)
    e.put("l", [{"id": r["id"], "a": r["a"], "s": r["s"]} for r in TABLE])
    e.put("r", [{"id": r["id"], "b": r["b"], "c": r["c"], "u": r["u"]} for r in TABLE])


def ask(e, q):
    with watchdog(20):
        return e.query(q)


def explore(unit, rec):
    what, op, tier = unit
    e = fresh()
    if what == "place":
        for x in [Node(op, leaves(op, s)) for s in (0, 1, 4)] + [x for inner in (OPS if tier == "thorough" else SMALL) for x in nested(op, inner, None, (0,))]:
            gc.collect()
            places(e, x, rec)
        return
    todo = []
    for x in trees(what, op, tier):
        for full in (False, True):
            q = sql(x, {}, full)
            if rec.state(q):
                todo.append((x, q))
    for i in range(0, len(todo), 8):
        if i % 80 == 0:
            gc.collect()
        part = todo[i:i + 8]
        got = ask(e, "select id, %s from t" % ", ".join("%s as v%d" % (q, n) for n, (_, q) in enumerate(part)))
        if isinstance(got, Err) or len(got) != len(TABLE):
            got = None
        for n, (x, q) in enumerate(part):
            judge(rec, "value", "select id, %s as v from t" % q, values(x), [r["v%d" % n] for r in got] if got else column(ask(e, "select id, %s as v from t" % q)))


def column(r):
    return r if isinstance(r, Err) else [x["v"] for x in r]


def judge(rec, place, q, want, got):
    rec.transitions += 1
    if isinstance(got, list) and len(got) == len(want):
        for row, w, g in zip(TABLE, want, got):
            if not same(w, g):
                rec.bad(place, "%s gives %r instead of %r" % (q, g, w), {"query": q, "row": repr(row)})
                return
        rec.ok((place, str([str(w) for w in want])), q)
    else:
        rec.bad(place, "%s gives %s" % (q, str(got)[:200]), {"query": q})


ALIAS = {c: "x." + c for c in COLUMNS}
SIDES = {"a": "x.a", "s": "x.s", "b": "y.b", "c": "y.c", "u": "y.u"}
JOIN = "from l x inner join r y on x.id = y.id"


def places(e, x, rec):
    want, plain = values(x), sql(x, {})
    known = Skip not in want
    sound = known and N0 not in want
    kept = sorted(r["id"] for r, w in zip(TABLE, want) if truth(w)) if known else None
    # a WHERE condition compares NULL as a value, which is not claimed
    open_rows = {r["id"] for r, w in zip(TABLE, want) if w is None or w is N0}
    number = kind(x) != "t"
    if not rec.state("places", plain):
        return

    def all_rows(place, q, names=None):
        q = q.replace("E", sql(x, names) if names else plain)
        r = ask(e, q)
        judge(rec, place, q, want, r if isinstance(r, Err) else [y["v"] for y in sorted(r, key=lambda y: y["id"])])

    def condition(place, q, names=None):
        if not known or not number:
            return
        q = q.replace("E", sql(x, names, need=2) if names else sql(x, {}, need=2))
        r = ask(e, q)
        rec.transitions += 1
        left_out = open_rows if place.startswith("where") else ()
        rec.expect(place, [y for y in kept if y not in left_out], r if isinstance(r, Err) else sorted(y["id"] for y in r if y["id"] not in left_out), {"query": q}, sample=q, outcome=(place, tuple(kept)))
    all_rows("alias", "select x.id, E as v from t x", ALIAS)
    all_rows("derived", "select id, v from (select id, E as v from t) d")
    all_rows("union", "select id, E as v from t where id < 9 union all select id, E as v from t where id >= 9")
    all_rows("join", "select x.id, E as v " + JOIN, SIDES)
    all_rows("window", "select id, max(E) over (partition by id) as v from t")
    all_rows("aggregate", "select id, max(E) as v from t group by id")
    all_rows("function", "select id, if(id > 0, E, 0) as v from t")
    all_rows("with others", "select id, E as v, id as w from t order by id desc")
    condition("where", "select id from t where E")
    condition("where alias", "select x.id from t x where id > 0 and E", ALIAS)
    condition("where join", "select x.id as id %s where E" % JOIN, SIDES)
    condition("having", "select id, a, b, c, s, u from t having E")
    condition("if", "select id from (select id, if(E, 1, 0) as f from t) d where f = 1")
    condition("case", "select id from (select id, case when E then 1 else 0 end as f from t) d where f = 1")
    if sound:
        q = "select E as v, count(*) as n from t group by E".replace("E", plain)
        r = ask(e, q)
        groups = {}
        for w in want:
            groups[key(w)] = groups.get(key(w), 0) + 1
        rec.transitions += 1
        rec.expect("group by", sorted(groups.items(), key=str), r if isinstance(r, Err) else sorted(((key(y["v"]), y["n"]) for y in r), key=str), {"query": q}, outcome=("group", len(groups)))
    if sound and any(n in COLUMNS for n in atoms(x)):
        q = "select id, E as v from t order by E".replace("E", plain)
        r = ask(e, q)
        rec.transitions += 1
        rec.expect("order by", sorted(map(key, want), key=lambda k: (k is not None, k)), r if isinstance(r, Err) else [key(y["v"]) for y in r], {"query": q}, outcome=("order", len(set(map(key, want)))))
    if sound and number:
        q = "select sum(E) as v, count(E) as n from t".replace("E", plain)
        r = ask(e, q)
        rec.transitions += 1
        full = [w for w in want if w is not None]
        rec.expect("sum", (key(sum(full)), len(full)), r if isinstance(r, Err) else (key(r[0]["v"]), r[0]["n"]), {"query": q}, outcome=("sum", key(sum(full))))
    # constants and variables in place of columns
    for row in (TABLE[1], TABLE[8], TABLE[13], TABLE[24]):
        w = want[row["id"] - 1]
        if w is Skip:
            continue
        const = {c: "null" if row[c] is None else "'%s'" % row[c] if isinstance(row[c], str) else "(%s)" % row[c] if row[c] < 0 else str(row[c]) for c in COLUMNS}
        for place, q in (("constants", "select %s as v" % sql(x, const)), ("constants in a query", "select %s as v from t where id = 1" % sql(x, const)),
                         ("variables", "select %s as v from t where id = 1" % sql(x, {c: "@q" + c for c in COLUMNS}))):
            if place == "variables":
                e.run("; ".join("set @q%s = %s" % (c, const[c].strip("()")) for c in COLUMNS))
            got = column(ask(e, q))
            rec.transitions += 1
            if isinstance(got, list) and len(got) == 1 and same(w, got[0]):
                rec.ok((place, str(w)), q)
            else:
                rec.bad(place, "%s gives %s instead of %r" % (q, str(got)[:200], w), {"query": q, "row": repr(row)})


def atoms(x):
    return [x] if isinstance(x, str) else [y for a in x.args for y in atoms(a)]


def key(v):
    return None if v is None else v if isinstance(v, str) else round(float(v), 9) + 0.0 if isinstance(v, (int, float)) else repr(v)
