"""C11  A failing statement fails loudly, stops its script, leaves no temporary table and no pending work, and the session goes on as if it had not run.

Fault injection at every point: for each script the real data-source operations (query, insert, update, delete of the in-memory database; the engine's own clean-up of
temporary tables excepted) and the calls of a user function are numbered; the script is re-run from scratch once per number with exactly that operation failing.
"""
import itertools
import os

from core import watchdog
from eng import Engine
from syncany.calculaters import Calculater, register_calculater
from syncany.database import memory as M

LEVEL = "fault_enumeration"


class Fault(Exception):
    pass


class FaultSystem(SystemError):
    pass


class FaultInterrupt(KeyboardInterrupt):
    pass


class Points(object):
    """Numbers the operations; the one numbered `at` raises."""
    n, at, hit, kind = 0, None, None, Fault

    @classmethod
    def arm(cls, at, kind=Fault):
        cls.n, cls.at, cls.hit, cls.kind = 0, at, None, kind

    @classmethod
    def step(cls, what):
        cls.n += 1
        if cls.at == cls.n:
            cls.hit = what
            raise cls.kind("fault at operation %d: %s" % (cls.n, what))


def wrap(builder, kind):
    commit = builder.commit

    def faulty(self):
        if not (kind == "delete" and self.name.startswith("--.__")):
            Points.step("%s %s" % (kind, self.name.split(".")[-1][:12]))
        return commit(self)
    builder.commit = faulty


for b, k in ((M.MemoryQueryBuilder, "query"), (M.MemoryInsertBuilder, "insert"), (M.MemoryUpdateBuilder, "update"), (M.MemoryDeleteBuilder, "delete")):
    wrap(b, k)


@register_calculater("tick")
class Tick(Calculater):
    def calculate(self, value=None, *args):
        Points.step("tick(%r)" % (value,))
        return value


INIT = {"t": [{"id": i, "a": i % 2, "b": i * 10} for i in range(3)], "u": [{"id": i, "k": i, "v": i + 5} for i in range(3)]}
S = [
    "insert into o select id, tick(a) as a from t where b >= 0",
    "insert into o select q.id as id, q.c as c from (select id, tick(b) as c from t) q",
    "insert into o select q.c as c from (select w.c as c from (select tick(b) as c from t) w where w.c > 0) q order by q.c desc limit 2",
    "insert into o with c as (select id, tick(a) as a from t) select c.id as id from c c where c.id in (select k from u where tick(v) > 5)",
    "insert into o select id from t where id in (select k from u where tick(v) > 5)",
    "insert into o select id, (select max(v) from u) as m from t",
    "insert into o select t.id as id from t t where exists (select k from u u where u.k = t.id and u.v > 5)",
    "insert into o select t.id as id, (select max(tick(u.v)) from u u where u.k = t.id) as m from t t",
    "insert into o select tick(id) as id, a as x from t union all select id, k as x from u",
    "insert into o select q.a as a, count(*) as c from (select a from t union all select k as a from u) q group by q.a",
    "insert into o select a, sum(tick(b)) as s, count(distinct b) as d from t group by a",
    "insert into o select distinct a from t",
    "insert into o select id, row_number() over (partition by a order by b desc) as r, sum(tick(b)) over (partition by a) as s from t",
    "insert into o select t.id as id, u.v as v from t t inner join u u on u.k = t.id left join (select id, tick(v) as w from u) z on z.id = t.a",
    "insert into `o<UDI>` select id, tick(b) as b from t where id >= 1",
    "insert into `o<UI>` select id, tick(b) as b from t",
    "insert into `o<DI>` select id, b from t where id in (1, 2)",
    "insert into o (id, b) select k, tick(v) from u",
    "delete from o where id in (select k from u where tick(v) > 5)",
    "select max(tick(b)) into @x from t; insert into o select 9 as id, @x as b",
    "select tick(q.b) as b into @x from (select id, tick(b) as b from t) q where q.id = 1; insert into o select id, @x as b from u",
    "set @batch = 1; select tick(id) as id into @x from m.t; set @batch = 0; insert into o select id, @x as b from u",
    "set @batch = 2; insert into o select t.id as id, (select sum(u.v) from m.u u where u.k = t.id) as m from m.t t; set @batch = 0",
    "set @batch = 1; insert into o select q.id as id, q.b as b from (select id, tick(b) as b from m.t) q; set @batch = 0",
    "insert into o select id from t having id in (select max(k) from u)",
    "set @batch = 2; insert into o select a, sum(tick(b)) as s from m.t group by a; set @batch = 0",
    "set @batch = 2; insert into o select id, a from m.t where a >= 0 order by id desc; set @batch = 0",
    "set @batch = 2; insert into o select count(distinct a) as c, max(tick(b)) as s from m.t; set @batch = 0",
    "set @streaming = true; insert into o select id, tick(a) as a from t; set @streaming = false",
    "execute `{file}`",
]
AFTER = "; insert into later select id from t"
BAD = ["select from where", "select nofunc(id) from t group by", "insert into o (id, b) values (1)", "select 1 +* 2 as x"]
KINDS = {"error": Fault, "terminate": FaultSystem, "interrupt": FaultInterrupt}
BOUND = {t: "%d scripts (derived tables, CTEs, IN / EXISTS / correlated / HAVING subqueries, unions, grouping, DISTINCT, windows, joins, merge modes, SELECT INTO, DELETE, batched "
            "reading, streaming, nested .sql file) x every operation of the in-memory database and every user function call failing once, as an exception, as SystemError (terminate) and as "
            "KeyboardInterrupt, in the root session and in a child context%s; %d statements that do not compile before and after every script; afterwards pending work, tables, variables "
            "and a full repeat of the script are checked" % (
                len(S), "; every pair of such exceptions in two consecutive runs" if t == "quick" else "; every pair of such failures of every kind in two consecutive runs", len(BAD))
         for t in ("quick", "thorough")}
ASSUME = ["the engine's own deletes of temporary tables do not fail", "rows a failing statement has already written to its target may stay"]


def units(tier):
    return [(tier, i, kind, ctx) for i in range(len(S)) for kind in KINDS for ctx in (False, True)]


class Session(object):
    def __init__(self, i, ctx):
        self.e = Engine({"databases": [{"name": "m", "driver": "memory"}]})
        self.load()
        self.at = self.e.e.context() if ctx else self.e.e
        self.sql = S[i]
        if "{file}" in self.sql:
            path = os.path.join(os.environ["MC_SCRATCH"], "c11_%d.sql" % os.getpid())
            with open(path, "w") as fp:
                fp.write(S[3] + ";\n" + S[10] + ";")
            self.sql = self.sql.replace("{file}", path)

    def load(self):
        e = self.e
        Points.arm(None)
        e.clear()
        for k in INIT:
            e.put(k, INIT[k])
            e.put(k, INIT[k], "m")
        e.put("o", [{"id": 0, "b": 1}, {"id": 7, "b": 1}])

    def run(self, sql):
        try:
            with watchdog():
                self.at.execute(sql)
        except (Exception, FaultInterrupt) as exc:
            return exc
        return None

    def state(self):
        return {k: sorted(map(repr, v)) for k, v in self.e.tables().items()}

    def check_after(self, before, err):
        """everything that must hold right after a failed script"""
        after, problems = self.state(), []
        if err is None:
            problems.append("the failure was swallowed")
        if "--.later" in after:
            problems.append("the statement after the failed one ran")
        extra = sorted(x for x in after if x not in before and x != "--.later")
        if extra:
            problems.append("temporary tables left: %s" % [x[:20] for x in extra])
        for x in ("--.t", "--.u"):
            if after.get(x) != before[x]:
                problems.append("source %s changed" % x)
        self.run("insert into mark (id) values (1)")
        after2 = self.state()
        if after2.pop("--.mark", None) != ["{'id': 1}"]:
            problems.append("the next script did not run as written")
        if after2 != after:
            problems.append("the next statement also ran work left from the failed one: %s" % sorted(set(after2) ^ set(after)))
        return problems

    def attempt(self, rec, name, k, kind, case):
        """one faulty run; returns False when there is no k-th operation"""
        self.load()
        before = self.state()
        Points.arm(k, KINDS[kind])
        err = self.run(self.sql + AFTER)
        hit = Points.hit
        Points.arm(None)
        rec.transitions += 1
        if hit is None:
            return False
        problems = self.check_after(before, err)
        if problems:
            rec.bad("%s | %s" % (name, hit), "; ".join(problems), dict(case, fault=hit))
        else:
            rec.ok((name, hit), {"script": self.sql, "fault": hit})
        return True

    def repeat(self, rec, name, good, case):
        """the session behaves as if the failed runs had not happened"""
        self.load()
        self.run("set @batch = 0; set @streaming = false")
        err = self.run(self.sql + AFTER)
        now = self.state()
        if err is not None or now != good:
            rec.bad("%s | repeat" % name, "repeat of the script gives %r, tables %s" % (
                err, {x: (now.get(x), good.get(x)) for x in set(now) | set(good) if now.get(x) != good.get(x)}), case)
        else:
            rec.ok(None)


def explore(unit, rec):
    tier, i, kind, ctx = unit
    s = Session(i, ctx)
    err = s.run(s.sql + AFTER)
    good = s.state()
    rec.expect("clean run of %s" % S[i], None, err, {"script": s.sql})
    extra = sorted(x for x in good if x not in ("--.t", "--.u", "--.o", "--.later"))
    rec.expect("tables left by %s" % S[i], [], extra, {"script": s.sql})
    s.e.close()
    k, again = 1, True
    while again:
        s = Session(i, ctx)
        case = {"script": s.sql, "k": k, "kind": kind, "child": ctx}
        again = s.attempt(rec, S[i], k, kind, case)
        rec.state(i, k, kind, ctx)
        if again and (tier == "thorough" or kind == "error" and not ctx):
            for j in itertools.count(1):
                if not s.attempt(rec, S[i] + " (second)", j, kind, dict(case, second=j)):
                    break
                rec.state(i, k, kind, ctx, j)
        s.repeat(rec, S[i], good, case)
        s.e.close()
        k += 1
    rec.counts["fault_points"] += k - 2
    if kind != "error":
        return
    for bad in BAD:
        # a script with a statement that does not compile runs none of its statements
        for script in (bad + "; " + S[i] + AFTER, S[i] + "; " + bad + AFTER, S[i] + AFTER + "; " + bad):
            s = Session(i, ctx)
            script = script.replace(S[i], s.sql)
            before = s.state()
            err = s.run(script)
            case = {"script": script, "child": ctx}
            problems = s.check_after(before, err)
            after = s.state()
            after.pop("--.mark", None)
            if after != before:
                problems.append("a statement of a script that does not compile ran")
            rec.transitions += 1
            rec.state(script, ctx)
            if problems:
                rec.bad("%s | %s" % (S[i], bad), "; ".join(problems), case)
            else:
                rec.ok((i, bad), case)
            s.repeat(rec, "%s | %s" % (S[i], bad), good, case)
            s.e.close()
