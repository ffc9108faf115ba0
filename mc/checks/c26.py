"""C26  Functions of one's own: imported Python functions, registered calculaters, aggregates, windows and generators, pyeval, row_index and row_last.

The functions of this check write down every call they get; what they are given, how often, in which order, and what becomes of the value they give is compared with the rows of the table."""
import datetime
import gc
import itertools
import sys
import types

from eng import Engine, Err
from core import watchdog

LEVEL = "model_checking"
BOUND = {
    "quick": "12 constants, 7 columns and 5 expressions as the arguments: every list of <=3 of them in the select list, of <=2 in 17 other places; 26 spellings of a name x 4 ways of importing; "
             "every table of <=3 rows over 7 rows x 45 queries with row functions, registered, failing and aggregate functions (and of <=5 rows over 2 rows x 5 sizes of batches); "
             "every table of <=3 rows over 6 rows x 9 yielding columns x 20 query shapes; 24 expressions of pyeval",
    "thorough": "as quick with tables of <=4 rows and of <=7 rows over 2 rows in batches"}
ASSUME = ["a yield function stands as a select column, or as a branch of CASE or IF that is one; inside of another function or operator it is not claimed",
          "LIMIT, ORDER BY and DISTINCT of yielded rows are checked without @batch: with @batch set each batch is sorted and cut separately by design",
          "row_index and row_last see the rows in the order in which they are read from the table, in front of ORDER BY",
          "an exception of an imported function gives NULL for the row, as the library documents in its warning"]

CALLS = []
MOMENT = datetime.datetime(2024, 2, 29, 13, 14, 15)


def note(*args):
    CALLS.append(args)
    return repr(args)


def times(n):
    for i in range(n or 0):
        yield i


def letters(s):
    CALLS.append((s,))
    for c in s or "":
        yield c


def fails(a):
    CALLS.append((a,))
    return [10, 20, 30][a]


class Space(object):
    @staticmethod
    def note(*args):
        CALLS.append(args)
        return repr(args)

    Factor = 3

    class Box(object):
        note = staticmethod(lambda *args: "box%d" % len(args))
        Factor = 4

        class Deep(object):
            Note = staticmethod(lambda *args: "deep%d" % len(args))


def make_module(name, tag):
    m = types.ModuleType(name)
    m.note, m.times, m.letters, m.fails, m.Space, m.FIVE, m.Nothing, m.Words = note, times, letters, fails, Space, 5, None, ["a", "b"]
    m.tag = lambda: tag
    m.UpperName = lambda *a: ("upper",) + a and "upper%d" % len(a)
    m.snake_name = lambda *a: "snake%d" % len(a)
    m.double = lambda a: None if a is None else a * 2
    m.last = lambda *a: a[-1]
    sys.modules[name] = m
    return m


make_module("mc26_first", "first")
make_module("mc26_second", "second")
make_module("mc26_pkg", "pkg").inner = make_module("mc26_pkg.inner", "inner")


def register():
    from syncanysql.calculaters import Calculater, GenerateCalculater, StateAggregateCalculater, AggregateCalculater, WindowAggregateCalculater, WindowStateAggregateCalculater, register_calculater

    class Joined(StateAggregateCalculater):
        def aggregate(self, state_value, data_value):
            return (state_value or []) + [data_value]

        def reduce(self, state_value, data_value):
            return (state_value or []) + (data_value or [])

        def final_value(self, state_value):
            return "-".join("" if v is None else str(v) for v in state_value or ["none"])

    class Product(AggregateCalculater):
        def aggregate(self, state_value, data_value):
            return (1 if state_value is None else state_value) * (1 if data_value is None else data_value)

        def reduce(self, state_value, data_value):
            return (1 if state_value is None else state_value) * (1 if data_value is None else data_value)

    class Sum3(Calculater):
        def calculate(self, *args):
            CALLS.append(args)
            return sum(a for a in args if a is not None)

    class Counter(Calculater):
        def calculate(self, *args):
            CALLS.append(args)
            return len(args)

    class Countdown(GenerateCalculater):
        def calculate(self, n):
            for i in range(n or 0, 0, -1):
                yield i

    class Position(WindowAggregateCalculater):
        def order_aggregate(self, state_value, data_value, context):
            return (context.current_index + 1) * 10

    class Above(WindowStateAggregateCalculater):
        def order_aggregate(self, state_value, data_value, context):
            return (state_value or []) + [data_value]

        def final_value(self, state_value):
            return "".join(str(v) for v in state_value)
    for name, cls in (("mc26_joined", Joined), ("mc26_product", Product), ("mc26_sum", Sum3), ("mc26_count", Counter), ("mc26_countdown", Countdown), ("mc26_position", Position), ("mc26_above", Above)):
        register_calculater(name)(cls)


READY = []


def fresh(config=None, use="use `mc26_first as u`"):
    if not READY:
        register()
        READY.append(1)
    gc.collect()
    e = Engine(dict({"timezone": "UTC", "databases": [{"name": "m", "driver": "memory"}]}, **(config or {})))
    if use:
        err = e.run(use)
        if err is not None:
            raise RuntimeError("%s: %s" % (use, err))
    return e


def ask(e, sql):
    del CALLS[:]
    with watchdog(60):
        return e.query(sql)


def check(rec, place, sql, got, want, case, calls=None):
    """rows as dictionaries, in the same order of columns, and the calls in order"""
    rec.transitions += 1
    bad = isinstance(got, Err) or [list(map(repr, r.items())) for r in got] != [list(map(repr, r.items())) for r in want]
    if not bad and calls is not None and list(map(repr, CALLS)) != list(map(repr, calls)):
        rec.bad(place, "%s calls the function with %s instead of %s" % (sql, str(CALLS)[:200], str(calls)[:200]), case)
    elif bad:
        rec.bad(place, "%s gives %s instead of %s" % (sql, str(got)[:300], str(want)[:300]), case)
    else:
        rec.ok((place, repr(want)[:60]), sql)


# -- arguments -----------------------------------------------------------------------------------------------------------------

ROWS = [{"id": 1, "n": 2, "s": "a", "f": 2.5, "z": None, "l": [1, "b", None], "d": {"k": 1}, "m": MOMENT}, {"id": 2, "n": 0, "s": "", "f": -1.0, "z": "z", "l": [], "d": {}, "m": None},
        {"id": 3, "n": -7, "s": "it's 'x', (y) -- é", "f": 1e20, "z": 0, "l": [[2]], "d": {"k": {"j": [1]}}, "m": MOMENT}]
CONSTANTS = {"0": 0, "-3": -3, "2.5": 2.5, "''": "", "'it''s'": "it's", "'a, (b)'": "a, (b)", "null": None, "true": True, "false": False, "'1'": "1", "(1, 'a')": [1, "a"], "'2024-01-01'": "2024-01-01"}
COLUMNS = {c: (lambda r, c=c: r[c]) for c in ("id", "n", "s", "z", "l", "d", "x.f")}
COLUMNS["x.f"] = lambda r: r["f"]
MADE = {"n + 1": lambda r: r["n"] + 1, "concat(s, '!')": lambda r: r["s"] + "!", "u$double(n)": lambda r: r["n"] * 2, "case when n > 0 then s else n end": lambda r: r["s"] if r["n"] > 0 else r["n"],
        "if(z is null, 'none', z)": lambda r: "none" if r["z"] is None else r["z"]}


def arguments():
    out = [(t, (lambda r, v=v: v)) for t, v in CONSTANTS.items()]
    return out + list(COLUMNS.items()) + list(MADE.items())


PLACES = {
    # text of the query with {0}: the call -> the expected rows, and the calls if they are exact
    "select": ("select id, {0} as v from t x", lambda rows, f: ([{"id": r["id"], "v": repr(f(r))} for r in rows], [f(r) for r in rows])),
    "nested": ("select id, u$last(1, {0}) as v from t x", lambda rows, f: ([{"id": r["id"], "v": repr(f(r))} for r in rows], [f(r) for r in rows])),
    "twice": ("select id, {0} as v, {0} as w from t x", lambda rows, f: ([{"id": r["id"], "v": repr(f(r)), "w": repr(f(r))} for r in rows], None)),
    "case": ("select id, case when id = 2 then {0} else 'no' end as v from t x", lambda rows, f: ([{"id": r["id"], "v": repr(f(r)) if r["id"] == 2 else "no"} for r in rows], None)),
    "case-when": ("select id, case {0} when '(nothing)' then 1 else 2 end as v from t x", lambda rows, f: ([{"id": r["id"], "v": 2} for r in rows], None)),
    "if": ("select id, if(id != 2, {0}, id) as v from t x", lambda rows, f: ([{"id": r["id"], "v": repr(f(r)) if r["id"] != 2 else 2} for r in rows], None)),
    "concat": ("select id, concat('<', {0}, '>') as v from t x", lambda rows, f: ([{"id": r["id"], "v": "<" + repr(f(r)) + ">"} for r in rows], None)),
    "where": ("select id from t x where concat({0}, '') != 'q' and id > 1", lambda rows, f: ([{"id": r["id"]} for r in rows if r["id"] > 1], None)),
    "having": ("select id, {0} as v from t x having v like '(%'", lambda rows, f: ([{"id": r["id"], "v": repr(f(r))} for r in rows], None)),
    "order": ("select id, {0} as v from t x order by v desc, id", lambda rows, f: ([{"id": r["id"], "v": repr(f(r))} for r in sorted(sorted(rows, key=lambda r: r["id"]), key=lambda r: repr(f(r)), reverse=True)], None)),
    "group": ("select {0} as v, count(*) as c from t x group by {0} order by v", lambda rows, f: ([{"v": v, "c": sum(1 for r in rows if repr(f(r)) == v)} for v in sorted(set(repr(f(r)) for r in rows))], None)),
    "aggregate": ("select max({0}) as v from t x", lambda rows, f: ([{"v": max(repr(f(r)) for r in rows)}], None)),
    "distinct": ("select distinct {0} as v from t x order by v", lambda rows, f: ([{"v": v} for v in sorted(set(repr(f(r)) for r in rows))], None)),
    "derived": ("select v from (select id, {0} as v from t x) y where v != 'q'", lambda rows, f: ([{"v": repr(f(r))} for r in rows], None)),
    "limit": ("select {0} as v from t x limit 1, 1", lambda rows, f: ([{"v": repr(f(rows[1]))}], None)),
    "union": ("select id, {0} as v from t x union all select 9 as id, 'last' as v", lambda rows, f: ([{"id": r["id"], "v": repr(f(r))} for r in rows] + [{"id": 9, "v": "last"}], None)),
    "subquery": ("select k.id, (select {0} from t x where x.id = k.id) as v from k k", lambda rows, f: ([{"id": r["id"], "v": repr(f(r))} for r in rows], None)),
    "window": ("select id, max({0}) over (order by id) as v from t x", lambda rows, f: ([{"id": r["id"], "v": max(repr(f(q)) for q in rows if q["id"] <= r["id"])} for r in rows], None)),
}


def do_arguments(what, tier, rec):
    place, first = what
    e = fresh()
    e.put("t", ROWS)
    e.put("k", [{"id": r["id"]} for r in ROWS])
    template, model = PLACES[place]
    args = arguments()
    deep = 3 if place == "select" else 2
    combos = [()] if first == 0 else []
    for n in range(1, deep + 1):
        combos += [(args[first],) + c for c in itertools.product(args, repeat=n - 1)]
    for k, c in enumerate(combos):
        if place in ("group", "distinct") and len(c) == 0:
            continue
        text = "u$note(%s)" % ", ".join(t for t, _ in c)
        if not rec.state(place, text):
            continue
        want, calls = model(ROWS, lambda r: tuple(g(r) for _, g in c))
        sql = template.format(text)
        check(rec, place, sql, ask(e, sql), want, {"query": sql, "table": "t: %r" % ROWS}, calls)
        if k % 300 == 299:
            gc.collect()


# -- names ---------------------------------------------------------------------------------------------------------------------

IMPORTS = {  # statement in front, configuration -> the name in front of $ and the tag of the module
    "use": ("use `mc26_first`", {}, "mc26_first", "first"),
    "as": ("use `mc26_second as q`", {}, "q", "second"),
    "package": ("use `mc26_pkg.inner as r`", {}, "r", "inner"),
    "imports": (None, {"imports": {"cfg": "mc26_pkg"}}, "cfg", "pkg"),
}
SPELLINGS = {"note(1, 'a')": "(1, 'a')", "NOTE(1, 'a')": "(1, 'a')", "Note(1, 'a')": "(1, 'a')", "space$note(1, 2)": "(1, 2)", "Space$Note(1, 2)": "(1, 2)", "SPACE$note()": "()", "space$factor()": 3, "Space$FACTOR()": 3,
             "space$box$note(1, 2)": "box2", "Space$Box$note()": "box0", "SPACE$BOX$FACTOR()": 4, "space$box$deep$note(1)": "deep1", "Space$Box$Deep$Note()": "deep0",
             "five()": 5, "FIVE()": 5, "Five()": 5, "nothing()": None, "words()": ["a", "b"], "tag()": True, "TAG()": True, "upper_name()": "upper0", "UPPER_NAME(1)": "upper1", "uppername(1, 2)": "upper2",
             "UpperName(1)": "upper1", "snake_name(1)": "snake1", "Snake_Name()": "snake0", "SNAKE_NAME(1)": "snake1", "double(4)": 8, "double('ab')": "abab", "double(null)": None, "last(1, null)": None}
MISSING = ["absent()", "space$absent(1)", "space$box$absent()", "space$box$deep$factor()", "five$x()", "notes(1)"]


def do_names(how, tier, rec):
    statement, config, name, tag = IMPORTS[how]
    for session in range(2):
        for together in (False, True):
            e = fresh(config, None)
            e.put("o", [{"id": 1}])
            if statement and not together:
                err = e.run(statement)
                if err is not None:
                    rec.bad("names", "%s: %s" % (statement, err), {"statement": statement})
                    return
            for text, want in SPELLINGS.items():
                want = tag if want is True else want
                sql = "insert into res select %s$%s as v from o" % (name, text)
                if together and statement:
                    sql = statement + ";" + sql
                if not rec.state("names", how, session, together, text):
                    continue
                e.put("res", [])
                err = e.run(sql)
                got = err or e.rows("res")
                check(rec, "names", sql, got, [{"v": want}], {"script": sql})
            for text in MISSING:
                e.put("res", [])
                sql = "insert into res select %s$%s as v from o; insert into res (v) values (1)" % (name, text)
                if not rec.state("names", how, session, together, text):
                    continue
                err = e.run(statement + ";" + sql if together and statement else sql)
                rec.transitions += 1
                if err is None or e.rows("res"):
                    rec.bad("names", "%s$%s is not refused (%s)" % (name, text, e.rows("res")), {"script": sql})
                else:
                    rec.ok("refused", sql)
            e.close()


# -- registered, failing and row functions ---------------------------------------------------------------------------------------

SMALL = [{"n": 0, "s": "a"}, {"n": 1, "s": "b"}, {"n": 2, "s": None}, {"n": 3, "s": "a"}, {"n": -1, "s": ""}, {"n": None, "s": "b"}, {"n": 2, "s": "a"}]


def numbered(rows):
    return [dict({"id": i}, **r) for i, r in enumerate(rows, 1)]


def groups(rows, key):
    out = {}
    for r in rows:
        out.setdefault(key(r), []).append(r)
    return out


def fail_value(n):
    return [10, 20, 30][n] if n is not None and -3 <= n <= 2 else None


def total(*a):
    return sum(x for x in a if x is not None)


def text(values):
    return "-".join("" if v is None else str(v) for v in values) if values else "none"


def product(values):
    out = 1
    for v in values:
        out *= 1 if v is None else v
    return out


def previous(rows, f):
    return [None] + [f(r) for r in rows[:-1]]


def kept(rows, *cols):
    return [{c: f(r) for c, f in cols} for r in rows]


def ordered(rows):
    return sorted(rows, key=lambda r: r["id"])


ID, N, S = ("id", lambda r: r["id"]), ("n", lambda r: r["n"]), ("s", lambda r: r["s"])
WHERE = {"": lambda r: True, " where x.id != 2": lambda r: r["id"] != 2, " where s = 'a'": lambda r: r["s"] == "a", " where n in (1, 2)": lambda r: r["n"] in (1, 2)}


def row_queries():
    out = []

    def add(sql, want, calls=None, batch=True):
        out.append((sql, want, calls, batch))
    for w, keep in WHERE.items():
        add("select id, row_index() as v from {t} x" + w, lambda rows, keep=keep: [{"id": r["id"], "v": i} for i, r in enumerate(filter(keep, rows), 1)])
        add("select id, row_last(n) as v from {t} x" + w, lambda rows, keep=keep: (lambda k: [{"id": r["id"], "v": p} for r, p in zip(k, previous(k, lambda r: r["n"]))])([r for r in rows if keep(r)]))
        add("select id, row_last(id) as u, row_index() as v, row_last(s) as w, row_index() as i from {t} x" + w,
            lambda rows, keep=keep: (lambda k: [{"id": r["id"], "u": p, "v": i, "w": q, "i": i} for i, (r, p, q) in enumerate(zip(k, previous(k, lambda r: r["id"]), previous(k, lambda r: r["s"])), 1)])([r for r in rows if keep(r)]))
        add("select id, mc26_sum(n, id, 1) as v from {t} x" + w, lambda rows, keep=keep: kept(filter(keep, rows), ID, ("v", lambda r: total(r["n"], r["id"], 1))), lambda rows, keep=keep: [(r["n"], r["id"], 1) for r in rows if keep(r)])
        add("select id, u$fails(n) as v from {t} x" + w, lambda rows, keep=keep: kept(filter(keep, rows), ID, ("v", lambda r: fail_value(r["n"]))), lambda rows, keep=keep: [(r["n"],) for r in rows if keep(r)])
        add("select mc26_joined(n) as v, mc26_product(n) as p, count(*) as c from {t} x" + w, lambda rows, keep=keep: (lambda k: [{"v": text([r["n"] for r in k]), "p": product([r["n"] for r in k]), "c": len(k)}] if k else None)([r for r in rows if keep(r)]))
    add("select id, mc26_count() as v from {t} x", lambda rows: kept(rows, ID, ("v", lambda r: 0)), lambda rows: [() for r in rows])
    add("select id, row_index() + 10 as v, row_index() * 2 as w from {t} x", lambda rows: [{"id": r["id"], "v": i + 10, "w": i * 2} for i, r in enumerate(rows, 1)])
    add("select id, case when n = 2 then 0 else row_index() end as v from {t} x", lambda rows: [{"id": r["id"], "v": 0 if r["n"] == 2 else sum(1 for q in rows[:i + 1] if q["n"] != 2)} for i, r in enumerate(rows)])
    add("select id, row_index() as v from {t} x having v > 1", lambda rows: [{"id": r["id"], "v": i} for i, r in enumerate(rows, 1) if i > 1])
    add("select id, row_index() as v from {t} x order by id desc", lambda rows: [{"id": r["id"], "v": i} for i, r in enumerate(rows, 1)][::-1], None, False)
    add("select id, row_index() as v from {t} x limit 1, 2", lambda rows: [{"id": r["id"], "v": i} for i, r in enumerate(rows, 1)][1:3], None, False)
    add("select id, v from (select id, row_index() as v from {t} x where s = 'a') y where v > 1", lambda rows: [{"id": r["id"], "v": i} for i, r in enumerate([r for r in rows if r["s"] == "a"], 1) if i > 1])
    add("select id, row_index() as v from {t} x union all select id, row_index() as v from {t} y", lambda rows: [{"id": r["id"], "v": i} for i, r in enumerate(rows, 1)] * 2, None, False)
    add("select id, mc26_sum(mc26_sum(n, 1), mc26_sum(id)) as v from {t} x", lambda rows: kept(rows, ID, ("v", lambda r: total(r["n"], 1, r["id"]))))
    add("select id, u$fails(n) is null as v from {t} x where id > 1", lambda rows: kept([r for r in rows if r["id"] > 1], ID, ("v", lambda r: int(fail_value(r["n"]) is None))))
    add("select id from {t} x where u$fails(n) = 20", lambda rows: kept([r for r in rows if r["n"] in (1, -2)], ID))
    add("select id from {t} x where mc26_sum(n, id) > 3 and s = 'a'", lambda rows: kept([r for r in rows if total(r["n"], r["id"]) > 3 and r["s"] == "a"], ID))
    add("select s, mc26_joined(n) as v, mc26_product(n) as p, count(*) as c from {t} x group by s", lambda rows: [{"s": s, "v": text([r["n"] for r in k]), "p": product([r["n"] for r in k]), "c": len(k)} for s, k in groups(rows, lambda r: r["s"]).items()])
    add("select s, mc26_joined(concat(id, ':', ifnull(n, ''))) as v from {t} x group by s", lambda rows: [{"s": s, "v": text(["%s:%s" % (r["id"], "" if r["n"] is None else r["n"]) for r in k])} for s, k in groups(rows, lambda r: r["s"]).items()])
    add("select s, mc26_joined(n) as v from {t} x group by s having v != '2' order by v desc", lambda rows: sorted([{"s": s, "v": text([r["n"] for r in k])} for s, k in groups(rows, lambda r: r["s"]).items() if text([r["n"] for r in k]) != "2"], key=lambda r: r["v"], reverse=True), None, False)
    add("select s, concat('<', mc26_joined(n), '>', mc26_product(id)) as v from {t} x group by s", lambda rows: [{"s": s, "v": "<%s>%s" % (text([r["n"] for r in k]), product([r["id"] for r in k]))} for s, k in groups(rows, lambda r: r["s"]).items()])
    add("select mc26_sum(n, 1) as v, count(*) as c from {t} x group by mc26_sum(n, 1)", lambda rows: [{"v": v, "c": len(k)} for v, k in groups(rows, lambda r: total(r["n"], 1)).items()])
    add("select id, mc26_position(n) over (order by id) as v from {t} x", lambda rows: [{"id": r["id"], "v": 10 * i} for i, r in enumerate(rows, 1)], None, False)
    add("select id, mc26_above(id) over (partition by s order by id) as v from {t} x", lambda rows: [{"id": r["id"], "v": "".join(str(q["id"]) for q in rows if q["s"] == r["s"] and q["id"] <= r["id"])} for r in rows], None, False)
    add("select id, mc26_joined(n) over (partition by s order by id) as v from {t} x", lambda rows: [{"id": r["id"], "v": text([q["n"] for q in rows if q["s"] == r["s"] and q["id"] <= r["id"]])} for r in rows], None, False)
    add("select id, mc26_joined(n) over (partition by s) as v from {t} x", lambda rows: [{"id": r["id"], "v": text([q["n"] for q in rows if q["s"] == r["s"]])} for r in rows], None, False)
    return out


def canon(rows, sql):
    """the order of the rows of a GROUP BY, and of a select with PARTITION BY, is open"""
    return sorted(rows, key=repr) if not isinstance(rows, Err) and (" group by " in sql and " order by " not in sql or "partition by" in sql) else rows


def do_rows(what, tier, rec):
    first, second, batches = what
    e = fresh()
    queries = row_queries()
    alphabet = SMALL if not batches else SMALL[1:3]
    deep = (5 if tier == "quick" else 7) if batches else (3 if tier == "quick" else 4)
    tables = [()] if (first, second) == (0, -1) else []
    if second < 0:
        tables.append((alphabet[first],))
    else:
        for n in range(0, deep - 1):
            tables += [(alphabet[first], alphabet[second]) + c for c in itertools.product(alphabet, repeat=n)]
    for k, t in enumerate(tables):
        if k % 20 == 19:
            gc.collect()
        rows = numbered(t)
        for batch in batches or (0,):
            if batch and len(rows) < batch and batch > 1:
                continue
            e.run("set @batch=%d" % batch)
            e.put("t", rows, "m" if batches else "--")
            for sql, model, calls, any_batch in queries:
                if batch and not any_batch:
                    continue
                sql = sql.replace("{t}", "m.t" if batches else "t")
                if not rec.state(sql, batch, repr(t)):
                    continue
                want = model(rows)
                if want is None:
                    continue
                got = ask(e, sql)
                check(rec, "rows", sql, canon(got, sql), canon(want, sql), {"query": sql, "@batch": batch, "rows": repr(rows)}, calls(rows) if calls and not isinstance(got, Err) else None)


# -- yield ---------------------------------------------------------------------------------------------------------------------

GIVEN = [{"n": 0, "l": []}, {"n": 1, "l": [5]}, {"n": 2, "l": ["a", None]}, {"n": 3, "l": [1, 1, 2]}, {"n": None, "l": None}, {"n": 2, "l": 7}]


def down(n):
    return list(range(n or 0, 0, -1))


def upto(n):
    return list(range(n or 0))


def elements(v):
    return v if isinstance(v, list) else [v]


YIELDS = {  # columns in the order of the select list -> for a row the list of its values, or the values of another column
    "mc26_countdown(n) as v": lambda r: [("v", down(r["n"]))], "u$times(n) as v": lambda r: [("v", upto(r["n"]))], "yield_array(l) as v": lambda r: [("v", elements(r["l"]))],
    "yield_array((1, 'b')) as v": lambda r: [("v", [1, "b"])], "u$times(n) as v, 7 as w": lambda r: [("v", upto(r["n"])), ("w", 7)],
    "u$times(n) as v, yield_array(l) as w": lambda r: [("v", upto(r["n"])), ("w", elements(r["l"]))],
    "case when n > 1 then u$times(n) else id end as v": lambda r: [("v", upto(r["n"]) if (r["n"] or 0) > 1 else r["id"])], "if(n = 2, yield_array(l), 'no') as v": lambda r: [("v", elements(r["l"]) if r["n"] == 2 else "no")],
    "u$letters(concat(n, 'x')) as v": lambda r: [("v", list("%sx" % r["n"]) if r["n"] is not None else [])],
}


def spread(row, columns, front=("id",)):
    """every row once for each value; a column that yields fewer values than another one goes on with NULL"""
    cols = columns(row)
    lists = [c for c in cols if isinstance(c[1], list)]
    n = max(len(c[1]) for c in lists) if lists else 1
    out = []
    for i in range(n):
        r = {c: row[c] for c in front}
        for name, v in cols:
            r[name] = (v[i] if i < len(v) else None) if isinstance(v, list) else v
        out.append(r)
    return out


def key(v):
    return (0, 0) if v is None else (1, v)


def distinct(rows):
    out = []
    for r in rows:
        if r not in out:
            out.append(r)
    return out


SHAPES = {  # the query with {0}: the select columns -> what it makes of the yielded rows, in order or not
    "select id, {0} from {t} x": (lambda rows, out: out, True),
    "select id, {0} from {t} x where id != 2": (lambda rows, out: [r for r in out if r["id"] != 2], True),
    "select id, {0} from {t} x where n >= 2": (lambda rows, out: [r for r in out if (rows[r["id"] - 1]["n"] or 0) >= 2], True),
    "select id, {0} from {t} x having id = 1": (lambda rows, out: [r for r in out if r["id"] == 1], True),
    "select id, {0} from {t} x having v = 1": (lambda rows, out: [r for r in out if r["v"] in (1, "1")], True),
    "select id, {0} from {t} x limit 1": (lambda rows, out: out[:1], True),
    "select id, {0} from {t} x limit 3": (lambda rows, out: out[:3], True),
    "select id, {0} from {t} x limit 1, 2": (lambda rows, out: out[1:3], True),
    "select id, {0} from {t} x limit 2 offset 3": (lambda rows, out: out[3:5], True),
    "select id, {0} from {t} x order by id desc": (lambda rows, out: sorted(out, key=lambda r: -r["id"]), True),
    "select id, {0} from {t} x where id > 1 order by id desc limit 2": (lambda rows, out: sorted([r for r in out if r["id"] > 1], key=lambda r: -r["id"])[:2], True),
    "select distinct {0} from {t} x": (lambda rows, out: distinct([{c: r[c] for c in r if c != "id"} for r in out]), True),
    "select distinct {0} from {t} x limit 2": (lambda rows, out: distinct([{c: r[c] for c in r if c != "id"} for r in out])[:2], True),
    "select count(*) as c, count(v) as d, max(id) as m from (select id, {0} from {t} x) y": (lambda rows, out: [{"c": len(out), "d": sum(1 for r in out if r["v"] is not None), "m": max(r["id"] for r in out)}] if out else None, True),
    "select id, count(*) as c from (select id, {0} from {t} x) y group by id": (lambda rows, out: [{"id": i, "c": sum(1 for r in out if r["id"] == i)} for i in sorted(set(r["id"] for r in out))], False),
    "select v from (select id, {0} from {t} x) y where id = 1 limit 2": (lambda rows, out: [{"v": r["v"]} for r in out if r["id"] == 1][:2], True),
    "select id, {0} from {t} x union all select 9 as id, {0} from {t} x where id = 1": (lambda rows, out: out + [dict(r, id=9) for r in out if r["id"] == 1], True),
    "select y.id, y.v, z.n from (select id, {0} from {t} x) y inner join {t} z on y.id = z.id": (lambda rows, out: [{"id": r["id"], "v": r["v"], "n": rows[r["id"] - 1]["n"]} for r in out], True),
    "select id from {t} x where id in (select {0} from {t} y where y.id = 1)": ("in", True),
    "insert": (lambda rows, out: out, True),
}


def do_yield(what, tier, rec):
    column, first = what
    e = fresh()
    deep = 3 if tier == "quick" else 4
    tables = [()] if first == 0 else []
    for n in range(0, deep):
        tables += [(GIVEN[first],) + c for c in itertools.product(GIVEN, repeat=n)]
    for k, t in enumerate(tables):
        if k % 20 == 19:
            gc.collect()
        rows = numbered(t)
        for batches in (False, True):
            e.run("set @batch=0")
            e.put("t", rows, "m" if batches else "--")
            if batches and (k % 3 or not rows):
                continue
            for shape, (model, in_order) in SHAPES.items():
                for batch in ((1, 2, 3) if batches else (0,)):
                    if batch and any(w in shape for w in ("limit", "order by", "distinct", "insert", "union", " in (")):
                        continue
                    if not rec.state(column, shape, batch, repr(t)):
                        continue
                    if model == "in" and (", " in column.split(" as v")[1] or len(column.split(" as v")) > 2):
                        continue
                    e.run("set @batch=%d" % batch)
                    out = [r for row in rows for r in spread(row, YIELDS[column])]
                    name = "m.t" if batches else "t"
                    if model == "in":
                        values = [r["v"] for r in out if r["id"] == 1]
                        want = [{"id": r["id"]} for r in rows if r["id"] in values]
                    else:
                        want = model(rows, out)
                        if want is None:
                            continue
                    if shape == "insert":
                        e.put("res", [])
                        sql = "insert into res select id, %s from %s x" % (column, name)
                        del CALLS[:]
                        got = e.run(sql) or e.rows("res")
                    else:
                        sql = shape.replace("{0}", column).replace("{t}", name)
                        got = ask(e, sql)
                    if not in_order and not isinstance(got, Err):
                        got = sorted(got, key=repr)
                    check(rec, "yield", sql, got, want, {"query": sql, "@batch": batch, "rows": repr(rows)})


# -- pyeval --------------------------------------------------------------------------------------------------------------------

PYEVAL = {"'1 + 2'": lambda r: 3, "'args[0]', n": lambda r: r["n"], "'args[0] + args[1]', n, id": lambda r: r["n"] + r["id"] if r["n"] is not None else None, "'len(args)'": lambda r: 0, "'len(args)', 1, null, s": lambda r: 3,
          "'args', n, 'a', null": lambda r: (r["n"], "a", None), "'1 / 0'": lambda r: None, "'not python ('": lambda r: None, "'args[3]', n": lambda r: None, "'missing_name'": lambda r: None, "''": lambda r: None,
          "'\",\".join([str(i) for i in range(4)])'": lambda r: "0,1,2,3", "'json.loads(args[0])', '[1, {}]'": lambda r: [1, {}], "'math.floor(2.5)'": lambda r: 2, "'re.sub(\"a\", \"b\", args[0])', 'banana'": lambda r: "bbnbnb",
          "'datetime.date(2024, 2, 29).isoformat()'": lambda r: "2024-02-29", "'mc26mod.FIVE + args[0]', id": lambda r: 5 + r["id"], "'[a for a in args]', n, s": lambda r: [r["n"], r["s"]], "'args[0] is None', s": lambda r: r["s"] is None,
          "concat('args', '[0]'), id": lambda r: r["id"], "if(id = 1, '1', 'args[0]'), s": lambda r: 1 if r["id"] == 1 else r["s"], "null, 1": lambda r: None, "'args[0] * 2', pyeval('args[0] + 1', id)": lambda r: (r["id"] + 1) * 2,
          "'None'": lambda r: None}


def do_pyeval(first, tier, rec):
    from syncanysql.calculaters.pyeval_calculater import register_pyeval_module
    e = fresh()
    register_pyeval_module("mc26mod", sys.modules["mc26_first"])
    for n in range(0, 3):
        for c in itertools.product(SMALL, repeat=n):
            rows = numbered((SMALL[first],) + c)
            e.put("t", rows)
            for code, f in PYEVAL.items():
                for shape in ("select id, pyeval(%s) as v from t x", "select id, pyeval(%s) as v from t x where id > 1"):
                    if not rec.state(shape, code, repr(rows)):
                        continue
                    sql = shape % code
                    check(rec, "pyeval", sql, ask(e, sql), kept([r for r in rows if r["id"] > 1 or "where" not in shape], ID, ("v", f)), {"query": sql, "rows": repr(rows)})
        gc.collect()


def units(tier):
    out = [("arguments", (p, i), tier) for p in PLACES for i in range(len(arguments()))]
    out += [("names", how, tier) for how in IMPORTS]
    out += [("rows", (i, j, ()), tier) for i in range(len(SMALL)) for j in range(-1, len(SMALL))]
    out += [("rows", (i, j, (1, 2, 3, 4, 5)), tier) for i in range(2) for j in range(-1, 2)]
    out += [("yield", (c, i), tier) for c in YIELDS for i in range(len(GIVEN))]
    return out + [("pyeval", i, tier) for i in range(len(SMALL))]


def explore(unit, rec):
    kind, what, tier = unit
    globals()["do_" + kind](what, tier, rec)
