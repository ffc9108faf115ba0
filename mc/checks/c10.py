"""C10  Literals and quoted names mean exactly what is written, wherever they stand."""
import itertools

from eng import Engine, Err

LEVEL = "model_checking"
# (source text inside '...', value) ; pieces for "..." swap the quotes
PIECES = [("a", "a"), (" ", " "), ("''", "'"), ("\\'", "'"), ("\"", "\""), ("\\\"", "\""), ("\\\\", "\\"), ("\\n", "\n"), ("\\t", "\t"), ("é", "é"), ("中", "中"), ("😀", "😀"),
          (";", ";"), ("--", "--"), ("#", "#"), ("/*", "/*"), ("`", "`"), ("?", "?"), (":", ":"), ("@", "@"), ("$", "$"), ("%", "%"), ("{", "{"), ("}", "}"), ("|", "|"), (".", "."),
          ("\n", "\n"), ("&", "&"), ("0", "0"), ("(", "(")]
NUMS = [("1", 1), ("-1", -1), ("0", 0), ("1.5", 1.5), ("-0.5", -0.5), (".5", 0.5), ("1e3", 1000.0), ("0b11", 3), ("b'101'", 5), ("0xff", 255), ("x'4D'", 77), ("-0x10", -16),
        ("12345678901234567890", 12345678901234567890), ("true", True), ("false", False), ("- 7", -7), ("@pv", 9), ("-@pv", -9), ("@ps", "p's"), ("007", 7)]
NAMEP = ["a", "B", " ", "-", ";", "--", "#", "'", "\"", "(", ")", ",", "/", "é", "中", "1", "@", "=", "%", "select", "{", "}", "!", "~", "\n", "/*", "\\", "_", "&"]
BOUND = {"quick": "every string literal of <= 2 of 30 pieces (quotes, escapes, comment openers, separators of the config language, latin-1 / CJK / astral letters) in ' and \" x 15 contexts (incl. SET and SELECT INTO), "
                  "<= 3 pieces in one context; 20 number, boolean and variable literals x 15 contexts (incl. SET and SELECT INTO); every quoted name of <= 2 of 29 pieces x 18 contexts, every pair of names with one prefix in one statement",
         "thorough": "as quick with <= 3 pieces in 4 contexts and 4 pieces from a 12-piece subset in one"}
ASSUME = ["backslash escapes are the Python ones the engine documents by its implementation (unicode_escape) after the delimiter escapes",
          "names containing . [ ] < > | : + ? * $ have a documented meaning of their own (path, type, option, key list) and are not claimed"]
VALUE_CTX = [("insert into t (v) values ({0})", "v"), ("insert into t select {0} as v", "v"), ("insert into t select v from w where v = {0}", "w"), ("insert into t select v from w where v in ({0}, 'zz')", "w"),
             ("insert into t select v from w where not v != {0}", "w"), ("insert into t select v from w where coalesce(v, '') = {0}", "w"), ("insert into t select q.v as v from (select {0} as v) q", "v"),
             ("insert into t select coalesce(null, {0}) as v", "v"), ("insert into t select case when id = 1 then {0} else 'n' end as v from w where id = 1", "v"),
             ("insert into t select x.v as v from w x inner join w y on y.id = x.id and y.v = {0} where x.v = {0}", "w"), ("insert into t select v from w having v = {0}", "w"),
             ("insert into t select max({0}) as v from w where id = 1", "v"), ("set @pz = {0}; insert into t select @pz as v", "v"),
             ("set @Pz = {0}; insert into t select v from w where v = @Pz", "w"), ("select {0} into @pz; insert into t select @pz as v", "v")]
CTX = [("alias", "select zz as {0} from w limit 1", lambda n: [{n: 1}]), ("const", "select 3 as {0}", lambda n: [{n: 3}]), ("expr", "select zz + 1 as {0} from w limit 1", lambda n: [{n: 2}]),
       ("read", "select {0} as v from w", lambda n: [{"v": 5}, {"v": 6}]), ("same", "select id, {0} from w limit 1", lambda n: [{"id": 1, n: 5}]),
       ("qual", "select w.{0} as v from w w", lambda n: [{"v": 5}, {"v": 6}]), ("where", "select id from w where {0} = 5", lambda n: [{"id": 1}]),
       ("calc", "select id from w where {0} + 0 = 5", lambda n: [{"id": 1}]), ("order", "select id, {0} from w order by {0} desc limit 1", lambda n: [{"id": 2, n: 6}]),
       ("group", "select {0}, count(*) as c from w group by {0}", lambda n: [{n: 5, "c": 1}, {n: 6, "c": 1}]), ("agg", "select sum({0}) as c from w", lambda n: [{"c": 11}]),
       ("derived", "select q.{0} as v from (select {0} from w) q", lambda n: [{"v": 5}, {"v": 6}]), ("having", "select id, {0} from w having {0} > 5", lambda n: [{"id": 2, n: 6}]),
       ("window", "select id, sum({0}) over (partition by {0}) as c from w", lambda n: [{"id": 1, "c": 5}, {"id": 2, "c": 6}]),
       ("distinct", "select distinct {0} from w", lambda n: [{n: 5}, {n: 6}]),
       ("join", "select a.id as id from w a inner join w b on b.{0} = a.{0}", lambda n: [{"id": 1}, {"id": 2}]),
       ("insert", "insert into t (id, {0}) values (1, 4)", lambda n: [{"id": 1, n: 4}]), ("inssel", "insert into t (id, {0}) select 1 as k, 4 as m", lambda n: [{"id": 1, n: 4}])]


def lits(first, n):
    for tail in itertools.product(range(len(PIECES)), repeat=n - 1):
        for q in "'\"":
            src, val, ok = "", "", True
            for i in (first,) + tail:
                s, v = PIECES[i]
                if q == '"':
                    s = {"''": '""', "\"": "'", "\\'": "\\'"}.get(s, s)
                    v = {"''": '"', "\"": "'"}.get(PIECES[i][0], v)
                src, val = src + s, val + v
            yield q + src + q, val


def units(tier):
    u = [("num", 0, 0, 0)]
    for i in range(len(PIECES)):
        u += [("lit", i, 2, len(VALUE_CTX)), ("lit", i, 3, 4 if tier == "thorough" else 1)]
    return u + [("name", i, 0, 0) for i in range(len(NAMEP))] + ([("four", i, 0, 0) for i in range(12)] if tier == "thorough" else [])


def check(e, rec, lit, val, ctxs):
    for sql, src in ctxs:
        if sql.startswith("set") and lit[:3] in ("'''", '"""'):      # raw text form of SET
            continue
        e.put("w", [{"id": 1, "v": val}, {"id": 2, "v": "other"}])
        e.put("t", [])
        err = e.run(sql.format(lit))
        rec.transitions += 1
        rec.state(sql, lit)
        got = err if err is not None else [r.get("v") for r in e.rows("t")]
        if isinstance(err, Err) or got != [val] or type(got[0]) is not type(val):
            rec.bad("%s | %s" % (lit, sql), "expected %r, got %r" % ([val], got), {"sql": sql.format(lit)})
        else:
            rec.ok(val, {"sql": sql.format(lit)})


def explore(unit, rec):
    kind, first, n, nctx = unit
    e = Engine()
    if kind == "num":
        e.e.set_variable("pv", 9)
        e.e.set_variable("ps", "p's")
        for lit, val in NUMS:
            check(e, rec, lit, val, VALUE_CTX)
    elif kind == "lit":
        for k in ((1, 2) if n == 2 else (3,)):
            for lit, val in lits(first, k):
                check(e, rec, lit, val, VALUE_CTX[:nctx] if n == 2 else VALUE_CTX[1:1 + nctx])
    elif kind == "four":
        keep = (0, 2, 3, 5, 6, 7, 9, 12, 13, 16, 19, 24)
        for tail in itertools.product(keep, repeat=3):
            idx = (keep[first],) + tail
            check(e, rec, "'" + "".join(PIECES[i][0] for i in idx) + "'", "".join(PIECES[i][1] for i in idx), VALUE_CTX[1:2])
    else:
        for other in NAMEP:
            x, y = "a" + NAMEP[first], "a" + other
            if x != y:
                e.put("w", [{"id": 1, x: 5, y: 6}])
                rec.expect("names %r %r" % (x, y), [{"id": 1, x: 5, y: 6, "b" + x: 6}],
                           e.query("select id, `%s`, `%s`, `%s` as `b%s` from w where `%s` = 5 and `%s` + 0 = 6" % (x, y, y, x, x, y)), {"names": [x, y]})
        for tail in [()] + [(p,) for p in NAMEP]:
            nm = NAMEP[first] + "".join(tail)
            for tag, sql, f in CTX:
                if nm == "-" and tag == "join":      # a lone - is a column list separator of the config language
                    continue
                e.clear()
                e.put("w", [{"id": 1, nm: 5, "zz": 1}, {"id": 2, nm: 6, "zz": 0}])
                sql = sql.replace("{0}", "`" + nm + "`")
                if sql.startswith("insert"):
                    err = e.run(sql)
                    got = err if err is not None else e.rows("t")
                else:
                    got = e.query(sql)
                rec.transitions += 1
                rec.state(tag, nm)
                rec.expect("name %r %s" % (nm, tag), f(nm), got, {"sql": sql}, sample={"sql": sql})
    e.close()
