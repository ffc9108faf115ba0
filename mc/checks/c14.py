"""C14  Sessions.

The root session of an engine and two child contexts share tables but have their own variables, functions and settings. Every sequence of operations on the three (API and SQL assignments,
SET GLOBAL, use(), settings, EXECUTE of a file, failing scripts, and queries whose functions execute scripts in the same or in another session, also two levels deep) is executed, and
afterwards every session -- and one created only then -- is asked for its variable, its function, its date format and the text of ${}; the rows written inside are compared too.
"""
import datetime
import gc
import itertools
import os

from eng import Engine, Err
from syncanysql import ScriptEngine
from syncanysql.executor import Executor

LEVEL = "model_checking"
ASSUME = ["names of functions are lower case (SQL function names are not case sensitive)", "global variables are shared by all engines of a process (removed between histories)",
          "a constant SET of an EXECUTEd file stands before its queries"]

SESSIONS = (0, 1, 2)        # root, A, B
NAMES = "RAB"
D = datetime.date(2021, 3, 4)


class Boom(KeyboardInterrupt):
    pass            # an exception of a function makes its value NULL, an interruption ends the script


class Model(object):
    """What each session sees: its own value, else its parent's, else the global one."""

    def __init__(self):
        self.x, self.f, self.fmt = [None] * 3, [0, None, None], [None] * 3
        self.gx = self.gfmt = None
        self.out = []

    def up(self, field, c, glob=None):
        own = getattr(self, field)
        return own[c] if own[c] is not None else own[0] if own[0] is not None else glob

    def seen(self, c):
        return {"x": self.up("x", c, self.gx), "f": self.up("f", c), "t": str(self.up("x", c, self.gx) or "none"), "d": D.strftime(self.up("fmt", c, self.gfmt) or "%Y-%m-%d")}


# operations: name -> (apply to the model, apply to the engine); c is the session, n a number used nowhere else in the history, w the world
def api(w, c, n):
    w.ctx[c].set_variable("x", n)


def const(w, c, n):
    w.ctx[c].execute("set @x = %d" % n)


def query_into(w, c, n):
    w.ctx[c].execute("set @x = (select max(id) + %d as m from t)" % (n - 2))


def row_assign(w, c, n):
    w.ctx[c].execute("insert into o select @x := id + %d as x from t" % (n - 2))


def m_x(m, c, n):
    m.x[c] = n


def m_row_assign(m, c, n):
    m.x[c] = n
    m.out += [("row", n - 1), ("row", n)]


def set_global(w, c, n):
    w.ctx[c].execute("set global @x = %d" % n)


def m_set_global(m, c, n):
    m.gx = n


def use(w, c, n):
    w.ctx[c].use("f", lambda: n)


def m_use(m, c, n):
    m.f[c] = n


def setting(w, c, n):
    w.ctx[c].execute("set @config.date_format = '%d-%%Y'" % n)


def m_setting(m, c, n):
    m.fmt[c] = "%d-%%Y" % n


def global_setting(w, c, n):
    w.ctx[c].execute("set global @config.date_format = 'G%d-%%m'" % n)


def m_global_setting(m, c, n):
    m.gfmt = "G%d-%%m" % n


def execute_file(w, c, n):
    path = os.path.abspath("c14_%d_%d.sql" % (os.getpid(), n))
    with open(path, "w") as fp:
        fp.write("set @config.date_format = 'F%d-%%Y'; set @x = %d; insert into o select @x as x, '${@x:none}' as t, f() as f, '${@d}' as d" % (n, n))
    try:
        w.ctx[c].execute("execute `%s`; insert into o select @x as x" % path)
    finally:
        os.remove(path)


def m_execute_file(m, c, n):
    m.out += [("row", n, str(n), m.up("f", c), "F%d-2021" % n), ("row", m.up("x", c, m.gx))]


def failing(w, c, n):
    try:
        w.ctx[c].execute("set @x = %d; insert into o select boom(id) as x from t; insert into o select 'never' as x" % n)
    except Boom:
        return
    raise AssertionError("no error")


def nested(path, fails=False):
    """A query of session c whose function executes, for every row, a script in session path[0], whose query does the same in path[1]..."""
    def engine(w, c, n):
        w.nest, w.fails = [(d, n + 3 * i) for i, d in enumerate(path)], fails
        w.ctx[c].execute("insert into o select id, nest(id) as k, @x as x, f() as f from t; insert into o select @x as x, '${@x:none}' as t")

    def model(m, c, n):
        text = str(m.up("x", c, m.gx) or "none")       # the text is replaced when the script is read
        rows = []
        for row in (1, 2):
            level(m, path, n, row)
            rows.append(("row", row, row, m.up("x", c, m.gx), m.up("f", c)))
        m.out += rows
        m.out.append(("row", m.up("x", c, m.gx), text))

    def level(m, rest, n, row):
        if not rest:
            return
        d = rest[0]
        m.x[d] = n + row
        if len(rest) == 1:
            if fails:
                return
            m.out.append(("row", m.up("x", d, m.gx), m.up("f", d)))
        else:
            level(m, rest[1:], n + 3, row)
            m.out.append(("row", row, m.up("x", d, m.gx), m.up("f", d)))
    return engine, model


def nest(w):
    def call(row):
        depth = w.depth
        if depth >= len(w.nest):
            return row
        d, n = w.nest[depth]
        w.depth += 1
        try:
            if depth + 1 == len(w.nest):
                if w.fails:
                    try:
                        w.ctx[d].execute("set @x = %d; insert into o select boom(1) as x" % (n + row))
                    except Boom:
                        pass
                else:
                    w.ctx[d].execute("set @x = %d; insert into o select @x as x, f() as f" % (n + row))
            else:
                w.ctx[d].execute("set @x = %d; insert into o select nestn(%d) as k, @x as x, f() as f" % (n + row, row))
        finally:
            w.depth -= 1
        return row
    return call


OPS = {"api": (api, m_x), "const": (const, m_x), "query": (query_into, m_x), "rows": (row_assign, m_row_assign), "global": (set_global, m_set_global), "use": (use, m_use),
       "setting": (setting, m_setting), "gsetting": (global_setting, m_global_setting), "file": (execute_file, m_execute_file), "fail": (failing, m_x)}
for _d in SESSIONS:
    OPS["nest" + NAMES[_d]] = nested((_d,))
    OPS["nestfail" + NAMES[_d]] = nested((_d,), True)
    for _e in SESSIONS:
        OPS["nest" + NAMES[_d] + NAMES[_e]] = nested((_d, _e))
ALL = [(c, o) for o in OPS for c in SESSIONS]
GROUPS = [["api", "const", "global", "nestR", "nestA", "nestB"], ["api", "query", "rows", "fail", "nestfailA", "nestAB"], ["use", "setting", "gsetting", "file", "nestA"]]
LONG = [[(c, o) for o in g for c in SESSIONS] for g in GROUPS]
BOUND = {"quick": "every sequence of <= 2 of %d operations (%d kinds x root and two children), with the settings of the sessions cached before and after each operation or not, and every sequence of 3 of "
                  "three sets of 15-18 of them" % (len(ALL), len(OPS)),
         "thorough": "every sequence of <= 3 of the %d operations, every sequence of 4 of the three sets" % len(ALL)}


class World(object):
    def __init__(self):
        self.e = Engine()
        (Executor.global_env_variables or {}).pop("@x", None)
        self.e.put("t", [{"id": 1}, {"id": 2}])
        root = self.e.e
        self.nest, self.fails, self.depth = [], False, 0
        call = nest(self)
        for name, f in (("nest", call), ("nestn", call), ("boom", self.boom), ("f", lambda: 0)):
            root.use(name, f)
        root.set_variable("d", D)
        self.ctx = [root, root.context(), root.context()]

    def boom(self, _):
        raise Boom()

    def ask(self, c):
        self.e.put("a", [])
        c.execute("insert into a select @x as x, f() as f, '${@x:none}' as t, '${@d}' as d")
        rows = self.e.rows("a")
        if len(rows) != 1:
            return rows
        if c.get_variable("x") != rows[0]["x"]:
            return ["get_variable", c.get_variable("x"), rows[0]]
        return rows[0]

    def all(self):
        return [self.ask(c) for c in self.ctx] + [self.ask(self.e.e.context())]


def tidy(done=[0]):
    done[0] += 1
    if done[0] % 30 == 0:
        gc.collect()            # engines are cyclic garbage


def canonical(seq):
    """The children are alike: A is used first."""
    for c, o in seq:
        for ch in NAMES[c] + "".join(x for x in o if x in "AB"):
            if ch == "A":
                return True
            if ch == "B":
                return False
    return True


def units(tier):
    us = [("pair", i, tier != "quick") for i in range(len(ALL))] + [("long", g, (i,)) for g in range(len(LONG)) for i in range(len(LONG[g]))]
    if tier != "quick":
        us = [("pair", i, True) for i in range(len(ALL))] + [("long", g, (i, j)) for g in range(len(LONG)) for i in range(len(LONG[g])) for j in range(len(LONG[g]))]
    return us + [("with",)]


def explore(unit, rec):
    if unit[0] == "with":
        return contexts(rec)
    if unit[0] == "pair":
        first = ALL[unit[1]]
        seqs = [(first,)] + [(first, o) for o in ALL]
        if unit[2]:
            seqs += [(first, o, p) for o in ALL for p in ALL]
        for s in seqs:
            if canonical(s):
                if len(s) < 3:
                    history(rec, s, True)
                history(rec, s, False)
    else:
        ops = LONG[unit[1]]
        for rest in itertools.product(ops, repeat=2):
            s = tuple(ops[i] for i in unit[2]) + rest
            if canonical(s):
                history(rec, s, False)


def history(rec, seq, warm):
    w, m = World(), Model()
    rec.transitions += len(seq)
    rec.state(seq, warm)
    text = "; ".join("%s.%s" % (NAMES[c], o) for c, o in seq) + (" (asked after each)" if warm else "")
    try:
        if warm:
            w.all()
        for i, (c, o) in enumerate(seq):
            n = 100 * (i + 1)
            engine, model = OPS[o]
            engine(w, c, n)
            model(m, c, n)
            if warm or i == len(seq) - 1:
                got = [w.all(), [tuple(["row"] + list(r.values())) for r in w.e.rows("o")]]
                want = [[m.seen(0), m.seen(1), m.seen(2), m.seen(0)], m.out]
                if got != want:
                    rec.bad(text, "expected %r, got %r" % diff(want, got), {"history": text})
                    return
        rec.ok(repr(got), {"history": text, "sessions": repr(got[0])[:300]})
    except Exception as exc:
        rec.bad(text, "raised %r" % Err(exc), {"history": text})
    finally:
        w.e.close()
        tidy()


def diff(want, got):
    """The sessions or rows that differ."""
    if want[0] != got[0]:
        return [x for x, y in zip(want[0], got[0]) if x != y], [y for x, y in zip(want[0], got[0]) if x != y]
    return want[1], got[1]


def contexts(rec):
    """`with context:` blocks, nested in every way: current_context() is the innermost one, or none; get, push and pop of tables and terminal() work everywhere."""
    for seq in itertools.chain.from_iterable(itertools.product((1, 2), repeat=k) for k in range(5)):
        for fails in range(len(seq) + 1):
            w = World()
            k = "with %s, %d fail" % ("".join(NAMES[c] for c in seq), fails)
            rec.state(seq, fails)
            rec.transitions += len(seq) + 1
            try:
                got, want = [], []
                enter(w, seq, fails, got, want, None)
                got.append(current(w))
                want.append(None)
                w.ctx[1].push_memory_datas("p", [{"id": 1}])
                got += [w.e.e.get_memory_datas("p"), w.ctx[2].pop_memory_datas("p"), w.ctx[0].get_memory_datas("p"), w.e.e.terminal()]
                want += [[{"id": 1}], [{"id": 1}], [], None]
                rec.expect(k, want, got, {"history": k})
            except Exception as exc:
                rec.bad(k, "raised %r" % Err(exc), {"history": k})
            finally:
                w.e.close()


def current(w):
    c = ScriptEngine.current_context()
    return None if c is None else NAMES[w.ctx.index(c)]


def enter(w, seq, fails, got, want, outer):
    if not seq:
        return
    try:
        with w.ctx[seq[0]] as c:
            got += [current(w), c is w.ctx[seq[0]]]
            want += [NAMES[seq[0]], True]
            c.execute("set @x = 5")
            enter(w, seq[1:], fails, got, want, NAMES[seq[0]])
            got += [current(w), w.e.e.terminal()]
            want += [NAMES[seq[0]], None]
            if len(seq) == fails:
                raise Boom()
    except Boom:
        pass
    got.append(current(w))
    want.append(outer)
