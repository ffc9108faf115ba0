"""C21  Type annotations and conversions: `c[type]`, convert_type(c), cast(c as type).

values: every value in every type through every spelling is what the type says.  queries: for every table of the bound, every query shape over a converted column gives what it gives over a column that
holds the converted values already (the second column of the same table, computed by the oracle).
"""
import datetime
import decimal
import gc
import itertools
import re

from eng import Engine, Err
from core import watchdog

LEVEL = "model_checking"
BOUND = {
    "quick": "31 values x 9 types x 31 type names x 4 spellings x 6 places; tables of <=3 rows over 4 stored values x 6 types x 3 spellings (of <=1 row: every spelling) x 87 query shapes; "
             "chains of 2 and 3 conversions over 5 types in 8 forms; joined tables of <=2 x <=2 rows x both sides x 2 kinds of join",
    "thorough": "as quick with tables of <=4 rows, chains of 4 and joined tables of <=3 x <=2 rows"}
ASSUME = ["a condition on an annotated column is given to the source as it is (the annotation says what the stored values are; docs: annotations belong in the select list), so annotations in WHERE are left out",
          "a column of the joined table may be converted by a function in an inner join only (the library drops unmatched rows of a LEFT JOIN without an equality it can load by)"]

U = datetime.timezone.utc
D, DT, T = datetime.date(2024, 2, 29), datetime.datetime(2024, 2, 29, 13, 14, 15), datetime.time(13, 14, 15)
VALUES = ["1", " 2 ", "-3", "1.5", "x", "", "0", "é", "true", "2024-02-29", "2024-02-29 13:14:15", "1e3", None, 0, 7, -7, 10 ** 20, 2.5, -2.7, 1000.0, 0.0, True, False, D, DT, T, decimal.Decimal("1.10"), decimal.Decimal("-0.5"),
          b"ab", [1, 2], {"a": 1}]
NAMES = {"int": ["int", "bigint", "mediumint", "smallint", "tinyint"], "float": ["float", "double"], "str": ["str", "string", "char", "varchar", "nchar", "text", "mediumtext", "tinytext"],
         "bytes": ["bytes", "binary", "varbinary", "blob"], "bool": ["bool", "boolean"], "decimal": ["decimal"], "datetime": ["datetime", "timestamp"], "date": ["date"], "time": ["time"], "array": ["array"],
         "set": ["set"], "map": ["map"]}
CASTS = {"int": ["int", "bigint", "smallint", "tinyint"], "float": ["float", "double"], "str": ["text", "varchar(20)", "char(20)"], "bool": ["boolean"], "decimal": ["decimal", "decimal(10, 2)"], "date": ["date"],
         "datetime": ["datetime", "timestamp"], "bytes": ["binary", "varbinary"]}
SKIP = object()


def number(v, kind):
    """what a number type makes of a value"""
    if isinstance(v, (list, dict, bytes)) or isinstance(v, (datetime.date, datetime.time)):
        return SKIP
    if v is None:
        return kind(0)
    if isinstance(v, decimal.Decimal) and kind is float:
        return float(v)
    try:
        return kind(v)
    except (ValueError, decimal.InvalidOperation):
        return kind(0)


def moment(v):
    if isinstance(v, datetime.datetime):
        return v
    if isinstance(v, datetime.date):
        return datetime.datetime(v.year, v.month, v.day)
    if isinstance(v, str):
        for f in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%d"):
            try:
                return datetime.datetime.strptime(v, f)
            except ValueError:
                pass
        return None
    return None if v is None else SKIP


def text(v):
    if v is None:
        return ""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return "%f" % v
    if isinstance(v, datetime.datetime):
        return v.strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(v, datetime.date):
        return v.strftime("%Y-%m-%d")
    if isinstance(v, datetime.time):
        return v.strftime("%H:%M:%S")
    if isinstance(v, (list, dict)):
        return SKIP
    return v.decode() if isinstance(v, bytes) else str(v)


def convert(v, kind):
    if kind in ("int", "float", "decimal"):
        return number(v, {"int": int, "float": float, "decimal": decimal.Decimal}[kind])
    if kind == "str":
        return text(v)
    if kind == "bytes":
        if isinstance(v, datetime.date) and not isinstance(v, datetime.datetime):
            return SKIP                      # the library fails on dates
        return SKIP if text(v) is SKIP else text(v).encode()
    if kind == "bool":
        return SKIP if isinstance(v, (list, dict)) else bool(v)
    if kind in ("datetime", "date"):
        m = moment(v)
        return m if m is SKIP or m is None else m if kind == "datetime" else m.date()
    if kind == "time":
        if isinstance(v, datetime.time):
            return v
        m = moment(v)
        return m if m is SKIP or m is None else m.time()
    if kind == "array":
        return SKIP if isinstance(v, datetime.datetime) else [] if v is None else v if isinstance(v, list) else [v]
    if kind == "set":
        return SKIP if isinstance(v, (list, dict, datetime.datetime)) else set() if v is None else {v}
    return v if isinstance(v, dict) else {} if v is None else SKIP


def plain(v):
    """moments without the time zone of the engine"""
    if isinstance(v, datetime.datetime):
        return v.replace(tzinfo=None)
    if isinstance(v, (list, set)):
        return type(v)(plain(x) for x in v)
    return v


def key(v):
    v = plain(v)
    return (type(v).__name__, repr(v) if not isinstance(v, float) else repr(float("%.9g" % v)))


def spellings(kind, col="c", table=""):
    """[(sql of the converted column, is it an annotation?)]"""
    t = table + "." if table else ""
    out = [("%s`%s[%s]`" % (t, col, n), True) for n in NAMES[kind]] + [("%s`%s[%s]`" % (t, col, n.upper()), True) for n in NAMES[kind][:1]]
    out += [("convert_%s(%s%s)" % (n, t, col), False) for n in NAMES[kind]] + [("CONVERT_%s(%s%s)" % (n.upper(), t, col), False) for n in NAMES[kind][:1]]
    out += [("cast(%s%s as %s)" % (t, col, n), False) for n in CASTS.get(kind, [])]
    return out


def fill(shape, sql):
    """the shape over a column: C is the converted column, CI the one holding converted values"""
    def column(m):
        table = (m.group(1) or "").lower()
        return table + "ci" if m.group(2) == "CI" else re.sub("`c|[(]c(?=[ )])|^ci$", lambda c: c.group(0)[:-1] + table + "c" if c.group(0)[0] == "(" else table + c.group(0), sql)
    return re.sub(r"([Ax][.])?\b(CI|C)\b", column, shape)


PLACES = ["select id, C as v from r", "select id, x.C as v from r x", "select v, id from (select id, C as v from r) t", "select id, if(1 = 1, C, C) as v from r", "select id, max(C) as v from r group by id",
          "select id, coalesce(C, C) as v from r"]
RAW = {"int": ["1", " 9 ", "10", None], "float": ["1.5", "9", "10", ""], "str": [1, 9, 10, None], "decimal": ["1.10", "9", "10", "x"], "bool": ["x", "", 1, None], "date": ["2024-02-29", "2024-10-01", "2024-02-29 01:02:03", "x"]}
QUERIES = [
    "select id, C as v from r", "select C from r", "select id, k, C from r", "select A.C, A.id from r a", "select id, x.C as v from r x", "select distinct C as v from r", "select distinct k, C as v from r",
    "select id, C as v from r order by C", "select id, C as v from r order by C desc", "select id, C as v from r order by v", "select id, C as v, k from r order by k, v desc", "select id, C as v from r order by C desc limit 2",
    "select id, C as v from r order by v limit 1, 1", "select C as v, id from r where id > 1", "select C as v, id from r where k = 'a' order by C",
    "select C as v, count(*) as n from r group by C", "select C as v, count(*) as n from r group by v", "select k, C as v, count(*) as n from r group by k, C", "select k, max(C) as m, min(C) as l from r group by k",
    "select k, sum(C) as m, avg(C) as l from r group by k", "select sum(C) as m from r", "select max(C) as m, min(C) as l, count(C) as n from r", "select count(distinct C) as n from r", "select k, group_concat(C) as g from r group by k",
    "select k, count(distinct C) as n from r group by k", "select C as v, max(id) as m from r group by C order by v", "select C as v, max(id) as m from r group by C order by C desc", "select C as v, count(*) as n from r group by C having n > 1",
    "select k, max(C) as m from r group by k having max(C) > 5", "select k, max(C) as m from r group by k having m > 5 order by m", "select C + 1 as v, id from r", "select id * C as v, id from r", "select concat(C, 'x') as v, id from r",
    "select if(C > 5, 'big', 'small') as v, id from r", "select case when C > 5 then C else 0 end as v, id from r", "select case C when 9 then 'nine' else 'no' end as v, id from r", "select C = 9 as v, id from r",
    "select C in (1, 9) as v, id from r", "select C is null as v, id from r", "select id, row_number() over (partition by k order by C) as n from r", "select id, row_number() over (order by C desc) as n from r",
    "select id, sum(C) over (partition by k) as n from r", "select id, max(C) over (order by id) as n from r", "select id, row_number() over (partition by C order by id) as n from r", "select id, lag(C, 1, 0) over (order by id) as n from r",
    "select id, first_value(C) over (partition by k order by id) as n from r", "select v from (select C as v, id from r) t where v > 5", "select v, count(*) as n from (select C as v from r) t group by v",
    "with w as (select C as v, id from r) select id, v from w where v >= 9", "select C as v from r union select x as v from s", "select C as v from r union all select x as v from s", "select x as v from s union all select C as v from r",
    "select a.id, b.y from r a left join s b on A.C = b.x", "select a.id, A.C as v, b.y from r a inner join s b on b.x = A.C", "select a.id, b.y from s b inner join r a on a.id = b.sid where A.C = 9",
    "select a.id, (select y from s t where t.x = A.C) as y from r a", "select id, C as v, c as w from r order by id", "select id, k, C as c from r order by id desc", "select id, C as v, C as w from r",
    "select c, count(*) as n from r group by C", "select group_concat(id) as g, c from r group by C", "select c, k, max(C) as m from r group by k, C", "select c, id, row_number() over (partition by C order by id desc) as n from r",
    "select c, id, row_number() over (partition by k order by C desc, id) as n from r", "select c as x, C as c, count(*) as n from r group by x", "select c, count(distinct C) as n from r group by C", "select distinct c, C as d from r",
    "select id, (select max(x) from s) as m, C as v from r", "select exists (select sid from s t where t.x = A.C) as v, a.id from r a"]
WHERES = ["select id from r where C = 9", "select id from r where C > 5", "select id from r where C != 9", "select id from r where C in (1, 9)", "select id from r where C between 5 and 9", "select id from r where 9 <= C", "select id from r where not C = 9",
          "select id from r where C = 9 or id = 1", "select id from r where C > 1 and k = 'a'", "select id, C as v from r where C >= 9 order by C desc", "select k, sum(C) as n from r where C > 1 group by k", "select id from r where C + 1 > 9",
          "select id from r where C in (select x from s)", "select id from r where C > (select min(x) from s)", "select a.id, b.y from r a inner join s b on A.CI = b.x where A.C > 1", "select C as v, id from r x where x.C = 9", "select c, id from r where C > 5 order by id",
          "select c, id from r where C in (select x from s)", "select c, id from r where C > 5 or id = 1", "select c, count(*) as n from r where C > 5 group by C"]
NUMERIC = ("int", "float", "decimal")
S = [{"sid": 1, "x": 1, "y": "p"}, {"sid": 2, "x": 9, "y": "q"}, {"sid": 3, "x": 2, "y": "r"}]
SVALUES = {"int": [1, 9, 2], "float": [1.5, 9.0, 2.0], "decimal": [decimal.Decimal("1.10"), decimal.Decimal("9"), decimal.Decimal("2")], "str": ["1", "9", "2"], "bool": [True, False, True],
           "date": [D, datetime.date(2024, 10, 1), datetime.date(2024, 1, 1)]}
# shapes that compare with a number or calculate
ARITHMETIC = ["C + 1", "C *", "* C", "> 5", ">= 9", "<= C", "sum(C)", "avg(C)", "C = 9", "(1, 9)", "when 9", "5 and 9", "C > 1", "lag(C"]


def shapes(kind, annotation):
    out = []
    for q in QUERIES + ([] if annotation or kind == "date" else WHERES):
        if kind not in NUMERIC and any(a in q.replace("A.C", "C").replace("x.C", "C") for a in ARITHMETIC) or kind == "bool" and "C > (" in q:
            continue
        if annotation and ("where A.C" in q or "having max(C)" in q):
            continue
        out.append(q)
    return out


def units(tier):
    return [("values", k, tier) for k in NAMES] + [("queries", k, i, tier) for k in RAW for i in range(PARTS)] + [("joins", k, tier) for k in RAW] + [("chains", (n, k), tier) for n in ((2, 3, 4) if tier == "thorough" else (2, 3)) for k in CHAIN]


def explore(unit, rec):
    {"values": values, "queries": queries, "joins": joins, "chains": chains}[unit[0]](*unit[1:-1], unit[-1], rec)


def rows(e, q):
    r = e.query(q)
    return repr(r) if isinstance(r, Err) else [tuple((k, key(v)) for k, v in x.items()) for x in r]


def fresh():
    gc.collect()
    return Engine({"databases": [{"name": "m", "driver": "memory"}]})


def values(kind, tier, rec):
    e = fresh()
    for sql, annotation in spellings(kind):
        for p in PLACES:
            if annotation is False and kind in ("map", "set") and "(C" in p:
                continue
            for v in VALUES:
                want = convert(v, kind)
                if want is SKIP or "max(" in p and (kind in ("array", "set", "map") or want is None):
                    continue
                if p.startswith("select id, coalesce") and want is None:
                    continue
                e.clear()
                e.put("r", [{"id": 1, "c": v}])
                q = fill(p, sql)
                rec.state(repr(v), q)
                with watchdog(10):
                    r = e.query(q)
                got = repr(r) if isinstance(r, Err) else [(x["id"], key(x["v"])) for x in r]
                rec.transitions += 1
                rec.expect("value", [(1, key(want))], got, {"value": repr(v), "type": kind, "query": q}, sample=q, outcome="%s %s" % (kind, key(want)[0]))


def put_s(e, kind):
    e.put("s", [dict(r, x=v) for r, v in zip(S, SVALUES[kind])])


PARTS = 8


def queries(kind, part, tier, rec):
    """spellings of one kind over one share of the shapes; the first annotation, function and cast in all tables, the others in the tables of one row"""
    all_spellings = spellings(kind)
    first = [next(s for s, a in all_spellings if a), next(s for s, a in all_spellings if not a), next((s for s, a in all_spellings if s.startswith("cast")), None)]
    e = fresh()
    n = 0
    for size in range(0, (4 if tier == "thorough" else 3) + 1):
        for vs in itertools.product(RAW[kind], repeat=size):
            n += 1
            if n % 10 == 0:
                gc.collect()
            table = [{"id": i + 1, "k": "ab"[i % 2], "c": v, "ci": convert(v, kind)} for i, v in enumerate(vs)]
            for shape in (QUERIES + WHERES)[part::PARTS]:
                want = None
                for sql, annotation in all_spellings:
                    if size > 1 and sql not in first or shape not in SHAPES[kind, annotation]:
                        continue
                    if want is None:
                        want = ask(e, kind, table, fill(shape, "ci"), shape)
                    q = fill(shape, sql)
                    rec.state(str(table), q)
                    got = ask(e, kind, table, q, shape)
                    rec.transitions += 1
                    rec.expect(shape, want, got, {"table": repr(table), "query": q, "same as": fill(shape, "ci")}, sample=q, outcome=(shape, str(want)[:200]))


def ask(e, kind, table, q, shape):
    e.clear()
    e.put("r", table)
    put_s(e, kind)
    with watchdog(10):
        r = rows(e, q)
    if isinstance(r, list):
        # an unnamed column is called after the column
        r = [tuple(("c" if k == "ci" else k, v) for k, v in x) for x in r]
        if " order by " not in shape or " over " in shape:
            r.sort()
    return r


SHAPES = {(k, a): set(shapes(k, a)) for k in RAW for a in (True, False)}


def joins(kind, tier, rec):
    """converted keys on both sides of a join"""
    e = fresh()
    vals = RAW[kind][:3]
    for sizes in itertools.product(range(1, 4 if tier == "thorough" else 3), range(1, 3)):
        for a, b in itertools.product(itertools.product(vals, repeat=sizes[0]), itertools.product(vals, repeat=sizes[1])):
            ra = [{"id": i, "c": v, "ci": convert(v, kind)} for i, v in enumerate(a)]
            rb = [{"sid": i, "d": v, "di": convert(v, kind)} for i, v in enumerate(b)]
            gc.collect()
            for (ls, la), (rs, r_a) in itertools.product([("a.ci", None), ("convert_%s(a.c)" % kind, False), ("a.`c[%s]`" % kind, True)], [("b.di", None), ("convert_%s(b.d)" % kind, False)]):
                for how in ("inner", "left"):
                    if how == "left" and r_a is False:
                        continue
                    for cond in ("%s = %s" % (ls, rs), "%s = %s" % (rs, ls)):
                        e.clear()
                        e.put("r", ra)
                        e.put("s", rb)
                        q = "select a.id, b.sid from r a %s join s b on %s" % (how, cond)
                        rec.state(str(ra), str(rb), q)
                        with watchdog(10):
                            got = rows(e, q)
                        want = [(x["id"], y["sid"]) for x in ra for y in rb if x["ci"] == y["di"]]
                        if how == "left":
                            want += [(x["id"], None) for x in ra if not any(x["ci"] == y["di"] for y in rb)]
                        want = sorted(tuple(zip(("id", "sid"), map(key, x))) for x in want)
                        rec.transitions += 1
                        rec.expect("join", want, sorted(got) if isinstance(got, list) else got, {"r": repr(ra), "s": repr(rb), "query": q}, sample=q, outcome=len(want))


CHAIN = ("int", "float", "str", "bool", "decimal")


def chains(arg, tier, rec):
    """`c[first;second;third]` converts by the first, then by the second, ...; a function around it comes last"""
    e = fresh()
    for kinds in itertools.product([arg[1]], *[CHAIN] * (arg[0] - 1)):
        gc.collect()
        for v in VALUES:
            want = v
            for k in kinds:
                want = SKIP if want is SKIP else convert(want, k)
            if want is SKIP:
                continue
            functions, casts = "c", "c"
            for k in kinds:
                functions, casts = "convert_%s(%s)" % (k, functions), "cast(%s as %s)" % (casts, CASTS[k][0])
            texts = ["`c[%s]`" % ";".join(kinds), "convert_%s(`c[%s]`)" % (kinds[-1], ";".join(kinds[:-1])), "cast(`c[%s]` as %s)" % (";".join(kinds[:-1]), CASTS[kinds[-1]][0]), functions, casts,
                     "convert_%s(if(1 = 1, `c[%s]`, 0))" % (kinds[-1], ";".join(kinds[:-1])), "max(`c[%s]`)" % ";".join(kinds), "max(%s)" % functions]
            for t in texts:
                q = "select %s as v from r%s" % (t, " group by id" if "max" in t else "")
                e.clear()
                e.put("r", [{"id": 1, "c": v}])
                rec.state(repr(v), q)
                with watchdog(10):
                    r = e.query(q)
                got = repr(r) if isinstance(r, Err) else [key(x["v"]) for x in r]
                rec.transitions += 1
                rec.expect("chain", [key(want)], got, {"value": repr(v), "query": q}, sample=q, outcome=kinds)
