"""C29  A recursive table holds exactly the rows its rule reaches; named columns of WITH and derived tables stand for the selected ones by position.

Every graph, every first select x rule x kind of union x query over the table up to the bound is run on the real engine and compared with what sqlite answers.
"""
import gc
import itertools
import sqlite3

from eng import Engine, Err

LEVEL = "model_checking"
BOUND = {
    "quick": "every graph of 3 nodes (512 sets of edges) x 6 recursive rules (reachable, closure, paths up to a depth, both directions, labelled) ; 10 first selects x 14 rules x UNION / UNION ALL x 14 queries over the table; every pair "
             "of rules as two tables of one statement; 24 selects x every naming of their columns over 3 names x 6 places; wrong numbers of names; @batch 0, 1, 3",
    "thorough": "as quick with every graph of 3 nodes in every @batch and with one doubled edge, every pair of rules with every first select"}
ASSUME = ["the rule selects from the recursive table directly (or joins others to it): other forms are refused", "an aggregate inside the rule is not used; LIMIT inside the recursive union is not used (known finding limit-in-union)",
          "one table has one recursive rule (known finding two-rules)", "rows come in no particular order unless the query orders them", "no NULLs in conditions"]

U = [(1, 2), (2, 3), (2, 4), (5, 6), (2, 3)]
T = [(1, 0, "a"), (2, 1, "b"), (3, 1, "c"), (4, 2, "d"), (5, 9, "e")]

FIRST = ["select 1 as n", "select k as n from u", "select distinct k as n from u", "select k as n from u where v > 3", "select k as n from u where k > 100", "select max(k) as n from u", "select k as n from u group by k",
         "select n from (select v as n from u where k = 2) y", "select u.v as n from t t inner join u u on u.k = t.id", "select id as n from t where id in (select k from u)"]
# from x, ends by itself under UNION ALL too
RULES = ["select n + 1 as n from x where n < 5", "select n * 2 as n from x where n < 9 and n > 0", "select n - 1 as n from x where n > 0", "select x.n + 2 as n from x x where x.n <= 6", "select u.v as n from x x inner join u u on u.k = x.n",
         "select t.id as n from x x inner join t t on t.p = x.n", "select n + 1 from x where n < 4", "select case when n % 2 = 0 then n + 1 else n + 3 end as n from x where n < 8", "select n + 1 as m from x where n < 3 and n > 0",
         "select n + 3 as n from x where n in (select k from u)", "select n + 1 as n from x where n < (select max(k) from u)", "select n + 10 as n from x where n < 10 or n = 11", "select x.n + u.v as n from x x inner join u u on u.k = x.n where x.n < 4",
         "select n + 1 as n from x where not (n > 3)"]
# these end under UNION only
CYCLES = ["select n % 4 + 1 as n from x", "select (n + 2) % 5 as n from x", "select n as n from x", "select t.p as n from x x inner join t t on t.id = x.n", "select 7 as n from x"]
OUTER = ["select n from x", "select n, count(*) c from x group by n", "select count(*) c, sum(n) s, max(n) m from x", "select n from x order by n desc", "select n from x order by n limit 3", "select distinct n from x", "select n + 1 as m from x where n > 2",
         "select k from u where k in (select n from x)", "select u.v, x.n from x x inner join u u on u.k = x.n", "select n from x union all select k as n from u", "select id from t where exists (select n from x where n = 3)",
         "select m from (select n % 2 as m, count(*) c from x group by n % 2) y where c > 1", "select n, row_number() over (order by n) r from x", "select a.id, b.n from t a left join x b on b.n = a.id where b.n > 0"]


class World(object):
    def __init__(self):
        self.e = Engine()
        self.c = sqlite3.connect(":memory:")
        for name, cols, rows in (("u", "kv", U), ("t", ("id", "p", "n"), T)):
            self.put(name, cols, rows)

    def put(self, name, cols, rows):
        self.c.execute("drop table if exists " + name)
        self.c.execute("create table %s (%s)" % (name, ", ".join(cols)))
        self.c.executemany("insert into %s values (%s)" % (name, ", ".join("?" * len(cols))), rows)
        self.e.put(name, [dict(zip(cols, r)) for r in rows])
        self.empty = [n for n in ("u", "t", "g") if not self.e.rows(n)]

    def answer(self, sql, ordered=False):
        try:
            rows = [tuple(r) for r in self.c.execute(sql).fetchall()]
        except sqlite3.Error as exc:
            raise AssertionError("%s: %s" % (exc, sql))
        return rows if ordered else sorted(rows, key=repr)

    def ask(self, sql, ordered=False):
        got = self.e.query(sql)
        if isinstance(got, Err):
            return got
        rows = [tuple(r.values()) for r in got]
        return rows if ordered else sorted(rows, key=repr)

    def check(self, rec, sql, want=None, case=None):
        if not rec.state(sql, case):
            return
        rec.transitions += 1
        ordered = " order by n desc" in sql[-30:] or " order by n limit" in sql[-30:]
        exp = self.answer(want or sql, ordered)
        got = self.ask(sql, ordered)
        rec.expect("%s%s" % (sql, " | %s" % (case,) if case else ""), exp, got, {"query": sql, "case": case}, outcome=repr(exp)[:60], sample={"query": sql, "rows": exp} if rec.transitions % 201 == 1 else None)
        left = [n for n in self.e.tables() if n.startswith("--.__")]
        if left:
            rec.bad("left %s" % sql, "temporary tables are left: %s" % left, {"query": sql})
            for n in left:
                self.e.store().pop(n)

    def close(self):
        self.e.close()


def units(tier):
    out = [("graphs", i) for i in range(16)] + [("rules", i) for i in range(len(FIRST))] + [("pairs", i) for i in range(len(RULES))] + [("names", i) for i in range(len(SELECTS))] + [("refused", None), ("known", None)]
    return [u + (tier,) for u in out]


def explore(unit, rec):
    what, arg, tier = unit
    w = World()
    try:
        {"graphs": graphs, "rules": rules, "pairs": pairs, "names": names, "refused": refused, "known": known}[what](w, arg, tier, rec)
    finally:
        w.close()


EDGES = list(itertools.product((1, 2, 3), repeat=2))
GRAPHS = ["with recursive x as (select 1 as n union select g.b as n from x x inner join g g on g.a = x.n) select n from x",
          "with recursive x as (select a, b from g union select x.a, g.b from x x inner join g g on g.a = x.b) select a, b from x",
          "with recursive x as (select 1 as n, 0 as d union all select g.b as n, x.d + 1 as d from x x inner join g g on g.a = x.n where x.d < 3) select n, d from x",
          "with recursive x as (select a as n from g where b = 1 union select g.a as n from x x inner join g g on g.b = x.n), y as (select 1 as n union select g.b as n from y y inner join g g on g.a = y.n) "
          "select x.n from x x inner join y y on y.n = x.n",
          "with recursive x(s, n, d) as (select a, b, 1 from g where a < b union all select x.s, g.b, x.d + 1 from x x inner join g g on g.a = x.n where x.d < 2) select s, n, count(*) c from x where d > 0 group by s, n",
          "with recursive x as (select a, b from g where a = b union select g.a, x.b from x x inner join g g on g.b = x.a) select a, count(*) c from x group by a"]


def graphs(w, part, tier, rec):
    for mask in range(part, 512, 16):
        edges = [e for i, e in enumerate(EDGES) if mask >> i & 1]
        for extra in ([], edges[:1]) if tier != "quick" else ([],):
            w.put("g", "ab", edges + extra)
            for batch in (0, 1, 3) if tier != "quick" else ((0, 1, 3)[mask // 16 % 3],):
                w.e.run("set @batch = %d" % batch)
                for sql in GRAPHS:
                    w.check(rec, sql, case="%s @batch=%d" % (edges + extra, batch))
        if mask % 5 == 0:
            gc.collect()


def rules(w, i, tier, rec):
    for rule, outer in itertools.product(RULES + CYCLES, OUTER):
        if "max(n)" in outer and not w.answer(FIRST[i]):
            continue
        for union in ("union", "union all"):
            if union == "union" or rule in RULES:
                w.check(rec, "with recursive x as (%s %s %s) %s" % (FIRST[i], union, rule, outer))
        # the same query over a table that is not recursive, next to one that is
    for outer in OUTER:
        if "max(n)" in outer and not w.answer(FIRST[i]):
            continue
        w.check(rec, "with recursive x as (%s), z as (select 1 as q union all select q + 1 as q from z where q < 3) %s" % (FIRST[i], outer))
    gc.collect()


def pairs(w, i, tier, rec):
    for j, (rule, first) in enumerate(itertools.product(RULES + CYCLES, FIRST if tier != "quick" else FIRST[:2])):
        ends = rule in RULES
        for u1, u2 in itertools.product(("union", "union all"), repeat=2):
            if u2 == "union" or ends:
                w.check(rec, "with recursive x as (%s %s %s), y as (%s %s %s) select x.n, y.n as m from x x inner join y y on y.n = x.n" % (first, u1, RULES[i], first, u2, rule.replace("from x", "from y").replace("x.n", "y.n")
                                                                                                                                  .replace("y x", "y y")))
                w.check(rec, "with recursive x as (%s %s %s), y as (select n as n from x where n < 4 %s %s) select n from y" % (first, u1, RULES[i], u2, rule.replace("from x", "from y").replace("x.n", "y.n").replace("y x", "y y")))
    gc.collect()


# the select and how many columns it has
SELECTS = [("select k, v from u", 2), ("select v as k, k as v from u", 2), ("select k, k as k2 from u", 2), ("select k + v, v from u where v > 2", 2), ("select k, count(*) from u group by k", 2), ("select distinct k, v from u", 2),
           ("select k, v from u order by v desc limit 2", 2), ("select k, v from u union all select id, p from t", 2), ("select k, v from u union select v, k from u", 2), ("select t.id, u.v from t t inner join u u on u.k = t.id", 2),
           ("select k, (select max(p) from t) from u", 2), ("select k, v from (select k, v from u where v > 2) y", 2), ("select k, v from u where k in (select id from t)", 2), ("select 1, 'x'", 2), ("select max(k), min(v) from u", 2),
           ("select row_number() over (order by v, k), v from u", 2), ("with y as (select k, v from u) select v, k from y", 2), ("with y(v, k) as (select k, v from u) select k, v from y", 2), ("select k from u", 1), ("select id, p, n from t", 3),
           ("select n, id, p from t where p < 2", 3), ("select k, count(*) as c from u group by k having c > 1", 2), ("select sum(v), k from u group by k order by k", 2), ("select case when k > 1 then 'big' else 'small' end, v from u", 2)]
NAMES = ["a", "k", "v"]


def names(w, i, tier, rec):
    select, count = SELECTS[i]
    for chosen in itertools.permutations(NAMES, count):
        head = ", ".join(chosen)
        first, last = chosen[0], chosen[-1]
        for j, outer in enumerate(("select %s from x" % head, "select %s from x order by %s" % (last, last), "select %s, count(*) c from x group by %s" % (first, first), "select z.%s from x z where z.%s = 2" % (last, first),
                                   "select t.id, z.%s as q from t t inner join x z on z.%s = t.id" % (last, first), "select id from t where id in (select %s from x)" % first)):
            w.check(rec, "with x(%s) as (%s) %s" % (head, select, outer))
            w.check(rec, "with recursive x(%s) as (%s) %s" % (head, select, outer))
            # the same table derived where it is used
            if not select.startswith("with"):
                place = "(%s) %%s(%s)" % (select, head)
                w.check(rec, outer.replace("from x z", "from " + place % "z").replace("join x z", "join " + place % "z").replace("from x", "from " + place % "y"), "with x(%s) as (%s) %s" % (head, select, outer))
        # names on top of a recursive table
        if count == 2 and " union" not in select and not select.startswith("with") and "order by" not in select and "'x'" not in select and "'big'" not in select:
            w.check(rec, "with recursive x(%s) as (%s union select %s, %s from x where %s < 3) select %s from x" % (head, select, last, first, first, head))
            w.check(rec, "with recursive x(%s) as (%s union all select %s + 1, %s from x where %s < 3) select %s, %s from x" % (head, select, first, last, first, last, first))
    gc.collect()


def refused(w, arg, tier, rec):
    """What cannot be done is refused; nothing is answered in silence."""
    for sql in ["with x(a) as (select k, v from u) select a from x", "with x(a, b) as (select k from u) select a from x", "with x(a, b, c) as (select k, v from u union all select v, k from u) select a from x", "select a from (select k, v from u) y(a)",
                "select a from (select k from u) y(a, b)", "with recursive x(a) as (select 1, 2 union all select a + 1, 3 from x where a < 3) select a from x",
                "with recursive x as (select 1 as n union all select t.id as n from t t inner join x x on x.n = t.p) select n from x", "with recursive x as (select 1 as n union select t.id as n from t t left join x x on x.n = t.p) select n from x",
                "with recursive x as (select 1 as n union all select n + 1 as n from (select n from x where n < 3) y) select n from x", "with recursive x as (select 1 as n union all select id as n from t where p in (select n from x)) select n from x"]:
        rec.state(sql)
        rec.transitions += 1
        got = w.e.query(sql)
        if isinstance(got, Err):
            rec.ok("refused", {"query": sql})
        else:
            rec.bad("refused " + sql, "accepted and answered %s" % got, {"query": sql})


def known(w, arg, tier, rec):
    for key, sql, exp, wrong in (("limit-in-union", "with recursive x as (select 1 as n union all select n + 1 as n from x where n < 9 limit 4) select n from x", [1, 2, 3, 4], [1, 2, 3, 4, 5]),
                                 ("two-rules", "with recursive x as (select 1 as n union select n * 2 as n from x where n < 9 union select 7 as n from x) select n from x", [1, 2, 4, 7, 8, 14, 16], [1, 2, 4, 7, 8, 16])):
        rec.state(sql)
        rec.transitions += 1
        got = w.ask(sql)
        rows = got if isinstance(got, Err) else sorted(r[0] for r in got)
        if rows == exp:
            rec.ok(repr(rows))
        else:
            rec.bad(key if rows == wrong else key + "-other", "%s: expected %s, got %s" % (sql, exp, rows), {"sql": sql})
