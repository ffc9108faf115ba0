"""C13  Session variables.

Every history of statements that assign or read two variables, cut into scripts in every way, each script executed in the root session or in a child
context; the rows written and the variables seen from the root, the child and a new context are compared with a reference that runs the statements in order.
"""
import itertools
import os

from eng import Engine, Err

LEVEL = "model_checking"
BOUND = {"quick": "every sequence of <= 2 of 34 statements (SET of constants, expressions and subqueries, SELECT INTO of a value, list and row, := inside rows, API, reads in the select list, WHERE, IN, "
                  "CASE, HAVING, joins, subqueries, derived tables, VALUES, DELETE, ${} text, a nested .sql file) and every sequence of 3 of 12 of them, x every cut into scripts x every assignment of the scripts "
                  "to the root session or a child context",
         "thorough": "every sequence of <= 3 of the 34 and of 4 of the 12"}
ASSUME = ["a SET of a constant counts for the whole script it stands in, from its compilation on (known finding set-constant-order: pinned by a test); ${} is replaced when the script is read",
          "comparisons of variables with columns are only claimed for values of the column's type", "variables of a nested file are its own (the file runs in a child session)",
          "SELECT INTO of no rows is not claimed"]

TROWS = [{"id": 1, "v": 10}, {"id": 2, "v": 20}, {"id": 3, "v": 20}]
NONE = object()


class Skip(Exception):
    pass


class Scope(object):
    def __init__(self, parent=None):
        self.v, self.parent = {}, parent

    def has(self, k):
        return k in self.v or (self.parent is not None and self.parent.has(k))

    def get(self, k):
        s = self
        while s is not None:
            if k in s.v:
                return s.v[k]
            s = s.parent
        return None


class State(object):
    def __init__(self):
        self.root = Scope()
        self.child = Scope(self.root)
        self.r = []


def num(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise Skip()
    return x


def text(x):
    if isinstance(x, bool) or not isinstance(x, (int, str)):
        raise Skip()
    return str(x)


def out(st, rows):
    st.r += rows


def const(var, lit, val):
    return ("set @%s = %s" % (var, lit), "const", (var, val))


def assign(var, sql, f):
    return (sql, "run", lambda s, st: s.v.__setitem__(var, f(s)), var)


def read(sql, f, var=None):
    return ("insert into r " + sql, "run", lambda s, st: out(st, f(s)), var)


def txt(var, sql, f):
    return ("insert into r " + sql, "text", (var, f))


def file_run(s, st, unknown):
    f = Scope(s)
    if unknown:
        f.v["y"] = None     # the file assigns it: not defined when the file was read
    f.v["X"] = 30
    out(st, [{"a": 30, "b": f.get("y")}])
    f.v["y"] = 31
    out(st, [{"a": 31}])


FILE = "set @{X} = 30; insert into r select @{X} as a, @{y} as b; set @{y} = @{X} + 1; insert into r select @{y} as a"

# core first: the longer sequences use only these
OPS = [
    const("{X}", "10", 10), const("{y}", "20", 20), const("{X}", "'a b'", "a b"),
    assign("X", "set @{X} = @{y}", lambda s: s.get("y")),
    assign("y", "set @{y} = @{X} + 5", lambda s: num(s.get("X")) + 5),
    assign("X", "select v into @{X} from t", lambda s: [10, 20, 20]),
    assign("y", "select 10 into @{y}", lambda s: 10),
    read("select @{X} as a, @{y} as b", lambda s: [{"a": s.get("X"), "b": s.get("y")}]),
    read("select id as a from t where v = @{y}", lambda s: [{"a": r["id"]} for r in TROWS if r["v"] == num(s.get("y"))]),
    ("insert into r select @{X} := @{X} + v as a from t", "run", lambda s, st: acc(s, st), "X"),
    ("execute `{F}`", "file", None),
    txt("X", "select '${{@{X}}}' as a", lambda v: [{"a": text(v)}]),
    # more
    const("{X}", "null", None), const("{y}", "-7", -7), const("{y}", "1.5", 1.5), const("{X}", "true", True),
    assign("y", "set @{y} = (select max(v) from t)", lambda s: 20),
    assign("X", "set @{X} = concat('p', 'q')", lambda s: "pq"),
    assign("X", "select id, v into @{X} from t where id = 1", lambda s: {"id": 1, "v": 10}),
    assign("X", "select count(*) as c into @{X} from t where v >= @{y}", lambda s: some(sum(1 for r in TROWS if r["v"] >= num(s.get("y"))))),
    assign("y", "select id - 1 as z into @{y} from t where id = 1", lambda s: 0), assign("X", "select '' into @{X}", lambda s: ""), const("{X}", "''", ""), const("{y}", "0", 0),
    assign("y", "select @{X} into @{y}", lambda s: val(s.get("X"))),
    read("select id as a from t where v in (@{X}, @{y})", lambda s: [{"a": r["id"]} for r in TROWS if r["v"] in (num(s.get("X")), num(s.get("y")))]),
    read("select id as a from t where v + 0 <= @{X} + 5", lambda s: [{"a": r["id"]} for r in TROWS if r["v"] <= num(s.get("X")) + 5]),
    read("select id as a, case when v > @{y} then @{X} else 'no' end as b from t", lambda s: [{"a": r["id"], "b": s.get("X") if r["v"] > num(s.get("y")) else "no"} for r in TROWS]),
    read("select v as a, count(*) as b from t group by v having a > @{y}", lambda s: [{"a": v, "b": c} for v, c in ((10, 1), (20, 2)) if v > num(s.get("y"))]),
    read("select a.id as a, b.id as b from t a inner join t b on b.id = a.id and b.v = @{y}", lambda s: [{"a": r["id"], "b": r["id"]} for r in TROWS if r["v"] == num(s.get("y"))]),
    read("select q.a as a from (select @{X} as a, id from t where v > @{y}) q", lambda s: [{"a": s.get("X")} for r in TROWS if r["v"] > num(s.get("y"))]),
    read("select a.id as a, (select max(b.id) from t b where b.id = a.id and b.v > @{y}) as b from t a",
         lambda s: [{"a": r["id"], "b": r["id"] if r["v"] > num(s.get("y")) else None} for r in TROWS]),
    ("insert into r (a, b) values (@{X}, @{y})", "run", lambda s, st: out(st, [{"a": s.get("X"), "b": s.get("y")}]), None),
    ("delete from r where a = @{y}", "run", lambda s, st: dele(s, st), None),
    txt("y", "select id as a from t where v = ${{@{y}}}", lambda v: [{"a": r["id"]} for r in TROWS if r["v"] == num(v)]),
]
CORE = 12


def some(x):
    if not x:
        raise Skip()
    return x


def val(x):
    if isinstance(x, (list, dict)):
        raise Skip()
    return x


def acc(s, st):
    x = num(s.get("X"))
    for r in TROWS:
        x += r["v"]
        out(st, [{"a": x}])
    s.v["X"] = x


def dele(s, st):
    y = num(s.get("y"))
    if any(not isinstance(r.get("a"), int) or isinstance(r.get("a"), bool) for r in st.r):
        raise Skip()
    st.r = [r for r in st.r if r["a"] != y]


def reference(scripts, early):
    """early: constants are set when the script is compiled (what the engine does), else in order."""
    st = State()
    for scope, ops in scripts:
        s = st.root if scope == 0 else st.child
        todo, dirty = [], set()
        for op in ops:
            kind = op[1]
            if kind == "const":
                var = op[2][0].strip("{}")
                act = lambda var=var, v=op[2][1]: s.v.__setitem__(var, v)
                dirty.discard(var)
            elif kind == "text":
                var, f = op[2]
                if var in dirty:
                    raise Skip()          # assigned by an earlier statement of the script, not yet known when the script is read
                act = lambda v=s.get(var), f=f: out(st, f(v))
            elif kind == "file":
                act = lambda unknown=early and not s.has("y"): file_run(s, st, unknown)
            else:
                act = lambda f=op[2]: f(s, st)
                if op[3]:
                    dirty.add(op[3])
                    if early and not s.has(op[3]):
                        s.v[op[3]] = None
            if kind == "const" and early:
                act()
            elif early:
                todo.append(act)
            else:
                act()
        for act in todo:
            act()
    return st


def seen(st, get):
    return [get(st.root, "X"), get(st.root, "y"), get(st.child, "X"), get(st.child, "y")]


def cuts(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        parts, cur = [], [0]
        for i, b in enumerate(bits):
            if b:
                parts.append(cur)
                cur = []
            cur.append(i + 1)
        yield parts + [cur]


def units(tier):
    n = len(OPS)
    if tier == "quick":
        return [((a,), n, 1) for a in range(n)] + [((a, b), CORE, 1) for a in range(CORE) for b in range(CORE)]
    return [((a, b), n, 1) for a in range(n) for b in range(n)] + [((a, b), CORE, 2) for a in range(CORE) for b in range(CORE)]


def same(a, b):
    return repr(a) == repr(b)


def explore(unit, rec):
    prefix, n, more = unit
    e = Engine()
    e.put("t", TROWS)
    count = [0]
    seqs = [prefix] if len(prefix) == 1 or n == CORE else []
    tails = itertools.chain.from_iterable(itertools.product(range(n), repeat=k) for k in range(1, more + 1)) if len(prefix) + more > 1 else ()
    done = set()
    for tail in itertools.chain([()] if seqs and len(prefix) == 1 else [], tails):
        idx = prefix + tuple(tail)
        if len(prefix) == 2 and n == CORE and len(idx) == 2:
            continue
        if idx in done:
            continue
        done.add(idx)
        for parts in cuts(len(idx)):
            for scopes in itertools.product((0, 1), repeat=len(parts)):
                if scopes[0] == 1 and 0 not in scopes and len(idx) > 2:
                    continue
                run_history(e, rec, idx, parts, scopes, count)
    e.close()


def run_history(e, rec, idx, parts, scopes, count):
    scripts = [(sc, [OPS[i] for i in (idx[j] for j in part)]) for sc, part in zip(scopes, parts)]
    try:
        want = reference(scripts, False)
        early = reference(scripts, True)
    except Skip:
        try:
            reference(scripts, True)
        except Skip:
            return
        return
    count[0] += 1
    names = {"X": "Vx%d" % count[0], "y": "v_y%d" % count[0], "F": os.path.abspath("f%d_%d.sql" % (os.getpid(), count[0]))}
    uses_file = any(op[1] == "file" for _, ops in scripts for op in ops)
    if uses_file:
        with open(names["F"], "w") as fp:
            fp.write(FILE.format(**names))
    e.put("r", [])
    child = e.e.context()
    sqls, err = [], None
    try:
        for sc, ops in scripts:
            sql = "; ".join(op[0] for op in ops).format(**names)
            sqls.append((("child: " if sc else "root: ") + "; ".join(op[0] for op in ops)))
            try:
                (child if sc else e.e).execute(sql)
            except Exception as exc:
                err = Err(exc)
                break
    finally:
        if uses_file:
            os.remove(names["F"])
    rec.transitions += len(idx)
    rec.state(idx, tuple(len(p) for p in parts), scopes)

    def observed(st, r):
        return [r, seen(st, lambda s, k: s.get(k)), [st.root.get("X"), st.root.get("y")]]

    if err is not None:
        got = err
    else:
        e.put("o", [])
        fresh = e.e.context()
        fresh.execute("insert into o select @{X} as a, @{y} as b".format(**names))
        o = e.rows("o")
        got = [e.rows("r"), [e.e.get_variable(names["X"]), e.e.get_variable(names["y"]), child.get_variable(names["X"]), child.get_variable(names["y"])],
               [o[0]["a"], o[0]["b"]] if len(o) == 1 else o]
    k = " || ".join(sqls)
    w, w2 = observed(want, want.r), observed(early, early.r)
    if same(w, got):
        rec.ok(repr(got), {"scripts": k, "rows": repr(got)[:200]})
    elif same(w2, got):
        rec.bad("set-constant-order", "expected %r, got %r" % (w, got), {"scripts": sqls})
    else:
        rec.bad(k, "expected %r, got %r" % (w, got), {"scripts": sqls})
