"""C08  INSERT (all merge modes) and DELETE histories leave exactly the rows they say.

Every sequence of up to n statements over two tables is executed in one session; after every statement both tables are compared with a reference
that applies the documented meaning of the statement to lists of rows.
"""
import copy

from eng import Engine, Err

LEVEL = "model_checking"
BOUND = {"quick": "every sequence of <= 3 of 36 statements (INSERT VALUES / SELECT in modes I, U, UI, UDI, DI and @use_output_type, self inserts, column lists, "
                  "grouped and joined sources, DELETE by =, IN, subquery, range, all, refused DELETEs and INSERTs) from filled tables and <= 2 from empty ones; both tables after every statement",
         "thorough": "<= 3 statements from both initial states and the sequences of 4 from the filled one whose first statement is one of 8"}
ASSUME = ["the first selected column is the key of U/UI/UDI, keys are unique in source and target when one of these modes runs (other prefixes are not extended that way)",
          "UDI/DI with a WHERE apply it to the target as well (documented), which is claimed for conjunctions of comparisons of plain columns",
          "a column a row does not have reads as NULL"]

COLS = ("id", "v", "w")


def row(*vals):
    return dict(zip(COLS, vals))


def norm(rows):
    out = []
    for r in rows:
        extra = sorted(set(r) - set(COLS))
        out.append(tuple((type(r.get(c)).__name__, r.get(c)) for c in COLS) + tuple(extra))
    return out


def uniq(rows):
    ids = [r.get("id") for r in rows]
    return len(set(ids)) == len(ids)


class Skip(Exception):
    pass


def store(target, src, mode, cond=lambda r: True):
    src = [dict(r) for r in src]
    if mode == "I":
        return target + src
    if mode == "DI":
        return [r for r in target if not cond(r)] + src
    if not uniq(target) or not uniq(src):
        raise Skip()
    if mode == "UDI":
        loaded = {r["id"] for r in target if cond(r)}
        upd = {r["id"]: r for r in src if r["id"] in loaded}
        out = [dict(r, **upd.get(r["id"], {})) for r in target if r["id"] not in loaded or r["id"] in upd]
        return out + [r for r in src if r["id"] not in loaded]
    have = {r["id"] for r in target}
    upd = {r["id"]: r for r in src}
    out = [dict(r, **upd.get(r["id"], {})) for r in target]
    return out + ([r for r in src if r["id"] not in have] if mode == "UI" else [])


def sel(rows, cond=lambda r: True):
    return [row(r.get("id"), r.get("v"), r.get("w")) for r in rows if cond(r)]


def gt(a, b):
    return a is not None and a > b


OPS = []


def op(sql, f, fails=False):
    """f(state) -> new state; state = {"t": rows, "s": rows}"""
    OPS.append((sql, f, fails))


def ins(tgt, mode, sql, src, cond=lambda r: True):
    name = "`%s<%s>`" % (tgt, mode) if mode else tgt
    op("insert into %s %s" % (name, sql), lambda st: dict(st, **{tgt: store(st[tgt], src(st), mode or "I", cond)}))


VALS = [row(2, 5, "c"), row(7, 7, "d")]
ins("t", "", "(id, v, w) values (1, 7, 'x'), (5, null, 'y')", lambda st: [row(1, 7, "x"), row(5, None, "y")])
ins("t", "", "(id, v) values (3, 1), (4, 1.5), (8, 'q')", lambda st: [row(3, 1), row(4, 1.5), row(8, "q")])
ins("t", "", "(w, id) values ('it''s; -- \"k\"', 6), ('', 0)", lambda st: [row(6, None, "it's; -- \"k\""), row(0, None, "")])
ins("t", "UI", "(id, v, w) values (2, 5, 'c'), (7, 7, 'd')", lambda st: VALS)
ins("s", "U", "(id, v, w) values (2, 5, 'c'), (7, 7, 'd')", lambda st: VALS)
ins("s", "DI", "(id, v, w) values (2, 5, 'c'), (7, 7, 'd')", lambda st: VALS)
ins("s", "", "select * from t", lambda st: st["t"])
ins("t", "", "select id + 10 as id, v, w from t where id < 3", lambda st: [row(r["id"] + 10, r.get("v"), r.get("w")) for r in st["t"] if r["id"] < 3])
ins("t", "", "(id, v) select max(id) as x, count(*) as y from s", lambda st: [row(max(r["id"] for r in st["s"]), len(st["s"]))] if st["s"] else [])
ins("s", "", "(w, id, v) select 'k' as a, id as b, 3 as c from t where id = 1", lambda st: [row(1, 3, "k") for r in st["t"] if r["id"] == 1])
ins("t", "", "select x.id as id, y.v as v, x.w as w from s x inner join t y on y.id = x.id",
    lambda st: [row(x["id"], y.get("v"), x.get("w")) for x in st["s"] for y in st["t"] if y["id"] == x["id"]])
ins("s", "UI", "select id, 1 as v, 'z' as w from t", lambda st: [row(r["id"], 1, "z") for r in st["t"]])
ins("t", "U", "select id, id * 2 as v from s", lambda st: [{"id": r["id"], "v": r["id"] * 2} for r in st["s"]])
for m in ("I", "U", "UI", "UDI", "DI"):
    ins("t", m, "select id, v, w from s where id >= 2", lambda st: sel(st["s"], lambda r: r["id"] >= 2), lambda r: r["id"] >= 2)
for m in ("U", "UI", "UDI", "DI"):
    ins("s", m, "select id, v, w from t", lambda st: sel(st["t"]))
ins("t", "DI", "select id, v, w from s where id != 2", lambda st: sel(st["s"], lambda r: r["id"] != 2), lambda r: r["id"] != 2)
ins("t", "UDI", "select id, v, w from s where id in (1, 2, 4)", lambda st: sel(st["s"], lambda r: r["id"] in (1, 2, 4)), lambda r: r["id"] in (1, 2, 4))
ins("t", "UI", "select id, max(id) as v, 'g' as w from s group by id", lambda st: [row(i, i, "g") for i in dict.fromkeys(r["id"] for r in st["s"])])
op("set @use_output_type='UPDATE_DELETE_INSERT'; insert into s select id, v, w from t where id >= 2; set @use_output_type=''",
   lambda st: dict(st, s=store(st["s"], sel(st["t"], lambda r: r["id"] >= 2), "UDI", lambda r: r["id"] >= 2)))
op("delete from t where id = 2", lambda st: dict(st, t=[r for r in st["t"] if r["id"] != 2]))
op("delete from t where id in (1, 4) and id < 3", lambda st: dict(st, t=[r for r in st["t"] if r["id"] != 1]))
op("delete from s where id in (select id from t)", lambda st: dict(st, s=[r for r in st["s"] if r["id"] not in [x["id"] for x in st["t"]]]))
op("delete from s where w = 'b2'", lambda st: dict(st, s=[r for r in st["s"] if r.get("w") != "b2"]))
op("delete from t", lambda st: dict(st, t=[]))
op("delete from t where id = 1 or id = 2", lambda st: st, True)
op("delete from t where id + 1 = 2", lambda st: st, True)
op("delete from t where id < 3 and v + 0 = 10", lambda st: st, True)
op("insert into t (id, v) values (1, 2, 3)", lambda st: st, True)
op("insert into t (id, v) select id, v, w from s", lambda st: st, True)

INITS = [{"t": [row(1, 10, "a1"), row(2, 20, "a2"), row(4, 40, "a4")], "s": [row(1, 100, "b1"), row(2, 200, "b2"), row(3, 300, "b3")]},
         {"t": [], "s": []}]


DEEP = (3, 6, 7, 11, 15, 16, 21, 25)


def units(tier):
    return [(tier, i, a) for i in range(len(INITS)) for a in range(len(OPS))]


def explore(unit, rec):
    tier, i, first = unit
    e = Engine()
    deep = (4 if tier == "thorough" and i == 0 and first in DEEP else 3) - (1 if tier == "quick" and i else 0)

    def run(seq):
        """replays seq from the initial state (the hidden state of rows and session is part of the history); returns the reference state or None"""
        st = copy.deepcopy(INITS[i])
        e.clear()
        for k in ("t", "s"):
            e.put(k, st[k])
        for n, o in enumerate(seq):
            sql, f, fails = OPS[o]
            try:
                st = f(st)
            except Skip:
                return False
            err = e.run(sql)
            rec.transitions += 1
            if n == len(seq) - 1:
                rec.state(i, seq)
                hist = [OPS[x][0] for x in seq]
                case = {"init": INITS[i], "script": hist}
                got = {k: norm(e.rows(k)) for k in ("t", "s")}
                exp = {k: norm(st[k]) for k in ("t", "s")}
                if isinstance(err, Err) != fails:
                    rec.bad("%s" % " ; ".join(hist), "statement %s: %r" % ("had to fail" if fails else "failed", err), case)
                    return False
                if not rec.expect(" ; ".join(hist) + " | init %d" % i, exp, got, case, sample={"script": hist, "t": repr(got["t"])[:160]}):
                    return False
        return True

    def dfs(seq):
        if run(seq) and len(seq) < deep:
            for o in range(len(OPS)):
                dfs(seq + (o,))
    dfs((first,))
    left = sorted(k for k in e.tables() if k not in ("--.t", "--.s"))
    rec.expect("leftover tables", [], left, {"first": OPS[first][0]})
    e.close()
