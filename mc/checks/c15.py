"""C15  Threads.

Two real threads execute scripts in contexts of their own (or create contexts, set up the engine, or change the root session) on one engine under a controlled scheduler that can stop a thread
at every line of the session, configuration and tasker code and at every call of the compiler. Every schedule with one switch (and, at the calls of the session code, with two) is run; the
rows, variables and settings of both must be those of the scripts run alone.
"""
import datetime
import gc
import itertools
import os

from eng import Engine, Err
from interleave import Locks, Run, Stuck
import syncanysql
from syncanysql import ScriptEngine
from syncanysql.executor import Executor

LEVEL = "model_checking"
ASSUME = ["a session is used by one thread at a time", "the syncany library is not interrupted (it holds its own locks); the two scripts write to different tables",
          "switches happen at line boundaries of the watched files"]

ROOT, SRC = os.path.dirname(os.path.dirname(os.path.abspath(syncanysql.__file__))), "syncanysql"
LINES = ["%s/%s" % (SRC, f) for f in ("__init__.py", "executor.py", "config.py")]
MORE = ["%s/taskers/%s" % (SRC, f) for f in ("query.py", "set.py", "into.py", "execute.py", "delete.py", "use.py")] + \
       ["%s/calculaters/%s" % (SRC, f) for f in ("env_variable_calculater.py", "query_tasker_calculater.py", "aggregate_calculater.py", "window_calculater.py")]
CALLS = ["%s/compiler.py" % SRC, "%s/parser.py" % SRC]

T = [{"id": 1, "v": 10}, {"id": 2, "v": 20}, {"id": 3, "v": 20}]


# programs: (w, i) -> runs as thread i, returns what it saw; expected value next to it
def variables(w, i):
    c, n = w.ctx[i], 100 * (i + 1)
    c.set_variable("a", n)
    c.execute("set @b = %d; insert into o%d select id, @a + id as x, @b as y, '${@a}' as t, f() as f from t where id < 3; select max(v) + @b into @a from t; "
              "insert into o%d select @a as x, @b as y" % (n + 1, i, i))
    return w.rows(i) + [c.get_variable("a"), c.get_variable("b")]


def variables_x(i):
    n = 100 * (i + 1)
    return [(1, n + 1, n + 1, str(n), 0), (2, n + 2, n + 1, str(n), 0), (n + 21, n + 1), n + 21, n + 1]


def functions(w, i):
    c, n = w.ctx[i], 10 * (i + 1)
    c.use("f", lambda: n)
    c.execute("set @config.date_format = '%d-%%Y'" % n)
    c.execute("insert into o%d select f() as f, root_f(2) as g, '${@d}' as d" % i)
    return w.rows(i)


def functions_x(i):
    n = 10 * (i + 1)
    return [(n, 4, "%d-2021" % n)]


def queries(w, i):
    c = w.ctx[i]
    c.execute("set @n = %d; insert into o%d select a.id, (select max(b.id) from t b where b.v = a.v and b.id > @n) as m from t a" % (i, i))
    return w.rows(i)


def queries_x(i):
    return [(1, 1 if i == 0 else None), (2, 3), (3, 3)]


def nested_query(w, i):
    c = w.ctx[i]
    c.execute("set @n = %d; with q as (select id, v + @n as v from t), p as (select v, count(*) as c from q group by v) insert into o%d select p.v, p.c from p p union all select q.v, q.id from q q where q.id = 3; "
              "delete from o%d where v = %d" % (i, i, i, 10 + i))
    return w.rows(i)


def nested_query_x(i):
    return [(20 + i, 2), (20 + i, 3)]


def windows(w, i):
    c = w.ctx[i]
    c.execute("set @n = %d; insert into o%d select id, count(distinct v) over () as c, sum(v) over (order by id) + @n as s from t" % (i, i))
    return w.rows(i)


def windows_x(i):
    return [(1, 2, 10 + i), (2, 2, 30 + i), (3, 2, 50 + i)]


def file(w, i):
    w.ctx[i].execute("set @n = %d; execute `%s`" % (i + 5, w.file(i)))
    return w.rows(i) + [w.ctx[i].get_variable("n")]


def file_x(i):
    return [(i + 5, str(i + 5)), (i + 70, "7%d" % i), i + 5]


def fresh(w, i):
    with w.e.e.context() as c:
        w.ctx[i] = c
        c.execute("insert into o%d select @g as g, f() as f" % i)
        same = ScriptEngine.current_context() is c
    return w.rows(i) + [same, ScriptEngine.current_context(), Executor.current()]


def fresh_x(i):
    return [(5, 0), True, None, None]


def failing(w, i):
    try:
        w.ctx[i].execute("set @n = %d; insert into o%d select id from t; insert into o%d select stop(id) as x from t" % (i, i, i))
    except KeyboardInterrupt:
        w.ctx[i].execute("insert into o%d select @n as n" % i)
    return w.rows(i)


def failing_x(i):
    return [(1,), (2,), (3,), (i,)]


def root(w, i):
    """changes the root session while the other thread runs in its context"""
    r = w.e.e
    r.use("late", lambda x: x * 5)
    r.set_variable("late", 7)
    r.execute("set @config.time_format = '%H'; set @later = 8; insert into o{0} select late(2) as a, @late as b, @later as c".format(i))
    c = r.context()
    c.execute("insert into o%d select late(3) as a, @late as b, @later as c" % i)
    return w.rows(i) + [r.executor.session_config.get().get("time_format")]


def root_x(i):
    return [(10, 7, 8), (15, 7, 8), "%H"]


def first_use(w, i):
    """the engine is set up by whichever thread comes first"""
    e = w.lazy()
    c = e.context()
    e.push_memory_datas("p%d" % i, [{"id": i + 1}])
    c.set_variable("n", i)
    c.execute("insert into q%d select id, @n as n from p%d" % (i, i))
    return [tuple(r.values()) for r in e.get_memory_datas("q%d" % i)] + [w.lazy() is e]


def first_use_x(i):
    return [(i + 1, i), True]


PROGRAMS = {"variables": (variables, variables_x), "functions": (functions, functions_x), "queries": (queries, queries_x), "nested": (nested_query, nested_query_x), "windows": (windows, windows_x),
            "file": (file, file_x), "fresh": (fresh, fresh_x), "failing": (failing, failing_x), "root": (root, root_x), "first": (first_use, first_use_x)}


class World(object):
    closed = 0

    def __init__(self, k):
        """k: the two programs"""
        (Executor.global_env_variables or {}).clear()
        self.e, self.lazy_engine = Engine(), None
        self.e.put("t", T)
        r = self.e.e
        r.use("f", lambda: 0)
        r.use("root_f", lambda x: x * 2)
        r.use("stop", self.stop)
        r.set_variable("g", 5)
        r.set_variable("d", datetime.date(2021, 3, 4))
        self.ctx = [r.context(), r.context()]
        self.files = []
        if "file" in k:
            for i in (0, 1):
                self.files.append(os.path.abspath("c15_%d_%d.sql" % (os.getpid(), i)))
                with open(self.files[-1], "w") as fp:
                    fp.write("insert into o%d select @n as n, '${@n}' as t; select %d into @n; insert into o%d select @n as n, '7%d' as t" % (i, 70 + i, i, i))
        if "first" in k:
            with Locks():
                self.lazy_engine = ScriptEngine({"loglevel": "CRITICAL"})

    def lazy(self):
        return self.lazy_engine

    def stop(self, n):
        raise KeyboardInterrupt()

    def file(self, i):
        return self.files[i]

    def rows(self, i):
        return [tuple(r.values()) for r in self.e.rows("o%d" % i)]

    def close(self):
        for f in self.files:
            os.remove(f)
        self.e.close()
        if self.lazy_engine is not None:
            self.lazy_engine.close()
        World.closed += 1
        if World.closed % 30 == 0:
            gc.collect()        # engines are cyclic garbage


ALL = (LINES + MORE, CALLS, ())
SOME = (LINES, MORE + CALLS, ("merge_config", "copy_config", "parse_virtual_view_args"))
FEW = ([], LINES, ())


def run(k, first, switches, points):
    w = World(k)
    try:
        progs = [PROGRAMS[k[0]], PROGRAMS[k[1]]]
        r = Run([lambda: progs[0][0](w, 0), lambda: progs[1][0](w, 1)], switches, points[0], points[1], ROOT, points[2])
        res = r.execute(first)
        want = [("ok", progs[i][1](i)) for i in (0, 1)]
        return want, res, r
    finally:
        w.close()


# (stopped program, the one that runs meanwhile): one switch
ONE = [("functions", "functions"), ("fresh", "fresh"), ("failing", "failing"), ("first", "first"), ("fresh", "root"), ("root", "fresh"), ("functions", "variables"), ("variables", "functions"),
       ("queries", "queries"), ("windows", "fresh"), ("file", "fresh")]
# two switches, at the calls of the session code
TWO = [("fresh", "fresh"), ("first", "first")]
PARTS = 16
BOUND = {"quick": "%d pairs of scripts x every schedule that stops one of the two at any line of executor.py, config.py, __init__.py or any call of the compiler, taskers or calculaters while the other "
                  "one runs to its end (one preemption), and %d pairs x every schedule with two preemptions at calls of the session code" % (len(ONE), len(TWO)),
         "thorough": "all %d ordered pairs x every schedule with one preemption at any line of the session, configuration, tasker and calculater code or any call of the compiler, and all pairs "
                     "with two preemptions at calls of the session code" % len(PROGRAMS) ** 2}


def units(tier):
    if tier == "quick":
        return [(k, "some", 1, r) for k in ONE for r in range(PARTS)] + [(k, "few", 2, r) for k in TWO for r in range(PARTS)]
    pairs = list(itertools.product(PROGRAMS, PROGRAMS))
    return [(k, "all", 1, r) for k in pairs for r in range(PARTS)] + [(k, "few", 2, r) for k in pairs for r in range(PARTS)]


def explore(unit, rec):
    k, points, bound, part = unit
    points = {"all": ALL, "some": SOME, "few": FEW}[points]
    at = part + 1
    while True:
        if bound == 1:
            if not schedule(rec, k, [at], points):
                break
        else:
            second = 1
            while schedule(rec, k, [at, second], points):
                second += 1
            if second == 1:
                break
        at += PARTS


def schedule(rec, k, switches, points):
    """False when the schedule has more switches than points: all have been run."""
    text = "%s stopped at point %d by %s%s" % (k[0], switches[0], k[1], " stopped at %d" % switches[1] if len(switches) > 1 else "")
    rec.state(k, tuple(switches))
    rec.transitions += len(switches) + 1
    try:
        want, got, r = run(k, 0, switches, points)
    except Stuck as exc:
        rec.bad(text, str(exc), {"schedule": text})
        return True
    if r.switches:
        return False
    rec.expect(text, want, got, {"schedule": text}, sample={"schedule": text, "results": repr(got)[:300]})
    rec.counts["points"] += sum(r.points)
    if r.blocked:
        rec.counts["waited for a lock"] += 1
    return True
