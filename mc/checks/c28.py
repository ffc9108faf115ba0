"""C28  EXPLAIN, verbosity and the settings of how work is cut into pieces tell more or work otherwise, but change no result.

Every script of the bound is run on the real engine as it stands and again with EXPLAIN in front of every subset of its queries, with SHOW between its statements, and under every combination of settings up to the bound;
rows returned, every table and file written, and errors must be the same.
"""
import contextlib
import gc
import io
import itertools
import json
import os
import shutil
import tempfile

from core import watchdog
from eng import Engine, Err

LEVEL = "model_checking"
BOUND = {
    "quick": "32 queries and 22 writes x every set of <=2 of 12 settings (@verbose, @timeout, @recovery, @join_batch, @insert_batch, @primary_order) x 3 sources (memory, a second memory database, json files), each with and "
             "without EXPLAIN; every script of <=2 of 20 statements, and of 3 of 9, with EXPLAIN on every subset and with SHOW before every statement",
    "thorough": "as quick with sets of <=3 settings and every script of <=3 of 20 statements"}
ASSUME = ["@batch, @limit and @streaming are not varied here: they change by design which rows a step sees", "EXPLAIN stands in front of queries and INSERTs only: other statements are refused"]

T = [{"id": i, "g": i % 3, "n": (i * 7) % 5 if i % 4 else None, "s": "ab"[i % 2]} for i in range(1, 8)]
K = [{"id": i, "v": "k%d" % i} for i in (0, 1, 2, 2, 9)]
QUERIES = ["select * from {t} x", "select id, n+1 as m from {t} x where n > 1", "select g, count(*) c, sum(n) s, group_concat(s) q from {t} x group by g", "select distinct g, s from {t} x",
           "select id, n from {t} x order by n desc, id", "select id from {t} x limit 3", "select id from {t} x order by id desc limit 2, 3", "select a.id, b.v from {t} a join {k} b on a.g = b.id",
           "select a.id, b.v from {t} a inner join {k} b on a.g = b.id where b.v != 'k1'", "select a.id, b.v, c.v w from {t} a left join {k} b on a.g = b.id left join {k} c on b.id = c.id",
           "select b.v, count(*) c from {t} a join {k} b on a.g = b.id group by b.v", "select id, row_number() over (partition by g order by id) r from {t} x", "select id, sum(n) over (partition by s order by id) r from {t} x",
           "select id from {t} x where g in (select id from {k} y)", "select id, (select max(v) from {k} y where y.id = x.g) m from {t} x", "select m from (select g, max(n) m from {t} x group by g) y where m > 1",
           "select id from {t} x union all select id from {k} y", "select id from {t} x union select id from {k} y", "select count(*) c from {t} x having c > 1",
           "select g, count(*) c from {t} x group by g having c > 2 order by g desc", "with w as (select g, n from {t} x) select g, sum(n) s from w group by g", "select count(distinct g) c, max(s) m from {t} x",
           "select id, case when n is null then 'none' else s end v from {t} x", "select 1 as a, 'b' as b", "select @a as a, id from {t} x where id > @a", "select a.id, b.id j, a.n + b.n m from {t} a join {t} b on a.id = b.g",
           "select a.id, b.v from {t} a join {k} b on a.g = b.id and a.n = 1", "select nope(1) as a from {t} x", "select id from {t} x where", "select x.id, yield_array(x.s) y from {t} x", "select avg(n) a, min(s) b from {t} x where id > 100",
           "select a.id, (select count(*) from {k} y where y.id = a.g) c, b.v from {t} a join {k} b on a.g = b.id"]
WRITES = ["insert into {r} " + q for q in QUERIES[:3] + QUERIES[4:8] + QUERIES[10:12] + QUERIES[13:17] + QUERIES[21:22]] + [
    "insert into {r} (id, v) values (1, 'x'), (2, 'y'), (3, null)", "insert into {t} (id, g) values (100, 4)", "insert into {t}<UDI> (id, g) values (1, 4)", "insert into {r} select id, row_number() over (order by n) as q from {t} x",
    "insert into {t} select id + 10 as id, g, n, s from {t} x", "insert into {r} select nope(1) as a from {t} x", "insert into {k} select id, s as v from {t} x", "insert into {r} select id, v from {k} x limit 2"]
SETTINGS = ["@verbose=true", "@verbose=1", "@timeout=1000", "@recovery=true", "@join_batch=1", "@join_batch=2", "@join_batch=3", "@insert_batch=1", "@insert_batch=2", "@insert_batch=3", "@primary_order=true", "@timeout=0"]
# (statement, can be explained)
STATEMENTS = [(q, 1) for q in ("select * from t x", "select g, count(*) c from t x group by g", "select id, @a as a from t x where id <= @a", "insert into r select id, s from t x where n > 1", "insert into t (id, g) values (100, 4)",
                               "insert into r select x.id, y.v from r x join k y on x.id = y.id", "insert into t<UDI> (id, g) values (1, 9)", "insert into r select count(*) as id from t x", "select nope(1) as a from t x",
                               "insert into r select id, row_number() over (partition by g order by id) as q from t x", "insert into `r` select id from t x union select id from k y", "select id from t x where id in (select id from r y)")]
STATEMENTS += [(q, 0) for q in ("set @a = 3", "set @a = (select max(id) from r x)", "select min(id) into @a from t x", "delete from t where id > 3", "delete from r", "use `math as k`", "set @verbose = true", "set @insert_batch = 1")]
SHORT = [0, 2, 3, 4, 7, 8, 12, 13, 15]
SHOWS = ["show databases", "show imports"]


def units(tier):
    out = [("settings", (kind, i)) for kind in ("m", "second", "files") for i in range(len(QUERIES + WRITES))]
    # several to a unit
    out = [("settings", out[i::24]) for i in range(24)] + [("scripts", i) for i in range(len(STATEMENTS))]
    return [u + (tier,) for u in out]


class World(object):
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mc28-", dir=os.environ.get("MC_SCRATCH") or None)
        self.count = 0

    def run(self, kind, before, sql, names=("t", "k", "r", "o")):
        """What happened: the error or None, rows returned, tables and files afterwards, text printed."""
        self.count += 1
        if self.count % 100 == 0:
            gc.collect()
        config = {"databases": [{"name": "m", "driver": "memory"}, {"name": "f", "driver": "json", "path": self.dir}]}
        e = Engine(config)
        out = io.StringIO()
        try:
            prefix, suffix = {"m": ("", ""), "second": ("m.", ""), "files": ("f.`", ".json`")}[kind]
            for n, content in (("t", T), ("k", K)):
                if kind == "files":
                    json.dump(content, open(os.path.join(self.dir, n + ".json"), "w"))
                else:
                    e.put(n, content, "--" if kind == "m" else "m")
            e.run("set @a = 2")
            e.e.execute("; ".join("set " + s for s in before)) if before else None
            with contextlib.redirect_stdout(out):
                if isinstance(sql, list):
                    err = e.run("; ".join(sql))
                    got = None
                else:
                    text = sql.format(**{n: prefix + n + suffix for n in names})
                    e.store().pop("--.__q", None)
                    if "insert" not in text:
                        text = text.replace("select", "insert into `__q` select", 1) if "with" not in text else text.replace("with", "insert into `__q` with", 1)
                    err = e.run(text)
                    got = [] if err is not None else [dict(r) for r in e.store().pop("--.__q", [])]
            state = {n: v for db in ("--", "m") for n, v in e.tables(db).items() if "__" not in n}
            files = {}
            if kind == "files":
                for n in names:
                    path = os.path.join(self.dir, n + ".json")
                    if os.path.exists(path):
                        files[n] = json.load(open(path))
                        os.remove(path)
            after = {}
            if isinstance(sql, list):
                e.run("insert into o select @a as a")
                after = e.rows("o")
            return (err is None, got, state, files, after), out.getvalue()
        finally:
            e.close()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def explore(unit, rec):
    what, arg, tier = unit
    w = World()
    try:
        {"settings": settings, "scripts": scripts}[what](w, arg, tier, rec)
    finally:
        w.close()


def contradict(combo):
    names = [s.split("=")[0] for s in combo]
    return len(set(names)) < len(names)


def settings(w, arg, tier, rec):
    for _, (kind, i) in arg:
        sql = (QUERIES + WRITES)[i]
        exp, _ = w.run(kind, (), sql)
        for r in range(3 if tier == "quick" else 4):
            for combo in itertools.combinations(SETTINGS, r):
                if contradict(combo):
                    continue
                for explain in (0, 1) if r < 2 else (len(repr(combo)) % 2,):
                    if not (r or explain) or not rec.state(kind, i, combo, explain):
                        continue
                    rec.transitions += 1
                    got, text = w.run(kind, combo, "explain " * explain + sql)
                    rec.expect("%s%s | %s | %s" % ("explain " * explain, sql, combo, kind), exp, got, {"statement": "explain " * explain + sql, "settings": combo, "tables": kind}, outcome=repr(exp)[:60],
                               sample={"statement": sql, "settings": combo, "explain": bool(explain), "rows": exp[1]} if rec.transitions % 501 == 1 else None)
                    if explain and exp[0] and "compiled config" not in text:
                        rec.bad("silent " + sql, "EXPLAIN printed no plan", {"statement": sql})


def scripts(w, first, tier, rec):
    for r in range(3):
        for rest in itertools.product(range(len(STATEMENTS)) if r < 2 or tier != "quick" else SHORT, repeat=r):
            seq = (first,) + rest
            if r == 2 and tier == "quick" and first not in SHORT:
                continue
            base = [STATEMENTS[i][0] for i in seq]
            exp = None
            can = [j for j, i in enumerate(seq) if STATEMENTS[i][1]]
            variants = [["explain " * (j in chosen) + s for j, s in enumerate(base)] for n in range(1, len(can) + 1) for chosen in itertools.combinations(can, n)]
            if r < 2:
                for n, show in enumerate(SHOWS):
                    variants.append([x for s in base for x in (show, s)] + [SHOWS[1 - n]])
            for statements in variants:
                if not rec.state(tuple(statements)):
                    continue
                if exp is None:
                    exp, _ = w.run("m", (), base)
                rec.transitions += len(statements)
                got, _ = w.run("m", (), statements)
                rec.expect("; ".join(statements), exp, got, {"script": statements, "instead of": base}, outcome=repr(exp)[:200])
