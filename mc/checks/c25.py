"""C25  JSON functions read, set and remove exactly the value at the path, and change nothing that is stored.

Every document up to a size x every path up to a length: JSON_EXTRACT, ->, JSON_SET, JSON_REMOVE and the others on a document given as a value and as a text, against a model that walks the document; after every query the
stored rows are compared with what was put there.
"""
import copy
import gc
import itertools
import json

from eng import Engine, Err
from core import watchdog

LEVEL = "model_checking"
BOUND = {"quick": "all documents of up to three levels with up to two entries in an array or object (the deepest level next to a scalar) over 1, a text, null, true, [] and {}: 1086; x all paths of up to 2 legs, and of 3 legs over 96 documents, of .a .b .\"k k\" "
                  "[0] [1] [2] [\"a\"]: JSON_EXTRACT, ->, ->>, JSON_SET of six values, JSON_REMOVE, JSON_CONTAINS_PATH, JSON_KEYS, JSON_LENGTH, the path written down and in a column, the document as value and as text; every pair of paths of up to 2 legs in "
                  "JSON_SET, JSON_REMOVE, JSON_CONTAINS_PATH one and all and in calls nested in one another; [*] before up to two legs; JSON_DEPTH and JSON_VALID of all documents and of every beginning of their texts; conditions, keys, joins, INSERT of the results",
         "thorough": "the same with three entries (1446 documents), paths of up to 3 legs for all documents, and pairs over all documents of two levels"}
ASSUME = ["an index into what is no array, the path $ in JSON_SET and JSON_REMOVE, .* and [*] anywhere but in JSON_EXTRACT, JSON_KEYS and JSON_LENGTH of what is neither array nor object, and JSON_CONTAINS are not judged", "a JSON null and NULL are the same value in a row"]

SKIP = object()
GONE = object()
SCALARS = [1, "x", None, True, [], {}]
KEYS = ("a", "b", "k k")


def level(inner, other, keys):
    out = [[x] for x in inner] + [{k: x} for k in keys for x in inner]
    for x in inner:
        for y in other:
            out += [[x, y], {keys[0]: x, keys[1]: y}]
            if x is not y:
                out += [[y, x], {keys[0]: y, keys[1]: x}]
    return out


def documents(tier):
    one = level(SCALARS, SCALARS, KEYS[:2] if tier == "quick" else KEYS)
    two = [d for d in level(one[:: 1], SCALARS[:2], KEYS[:: 2] if tier == "quick" else KEYS)]
    seen, out = set(), []
    for d in SCALARS + one + two + ([] if tier == "quick" else [[1, "x", d] for d in one] + [{"a": 1, "b": d, "k k": 2} for d in one]):
        k = json.dumps(d)
        if k not in seen:
            seen.add(k)
            out.append(json.loads(k))
    return out


LEGS = [".a", ".b", '."k k"', "[0]", "[1]", "[2]", '["a"]']


def leg(x):
    return int(x[1]) if x[1].isdigit() else x.strip('.[]"')


def paths(n):
    return [p for k in range(n + 1) for p in itertools.product(LEGS, repeat=k)]


def spell(p):
    return "$" + "".join(p)


def walk(d, p):
    for x in p:
        k = leg(x)
        if isinstance(k, int):
            if not isinstance(d, list):
                return SKIP
            if k >= len(d):
                return GONE
        elif not isinstance(d, dict) or k not in d:
            return GONE
        d = d[k]
    return d


def read(d, p):
    if d is None:
        return None
    v = walk(d, p)
    return None if v is GONE else v


def put(d, p, v):
    d = copy.deepcopy(d)
    if not p or d is None:
        return SKIP if not p else None
    at = walk(d, p[:-1])
    if at is SKIP:
        return SKIP
    k = leg(p[-1])
    if at is GONE:
        return d
    if isinstance(k, int):
        if not isinstance(at, list):
            return SKIP
        if k < len(at):
            at[k] = v
        else:
            at.append(v)
    elif isinstance(at, dict):
        at[k] = v
    return d


def drop(d, p):
    d = copy.deepcopy(d)
    if not p or d is None:
        return SKIP if not p else None
    at = walk(d, p[:-1])
    if at is SKIP:
        return SKIP
    k = leg(p[-1])
    if isinstance(k, int):
        if at is not GONE and not isinstance(at, list):
            return SKIP
        if at is not GONE and k < len(at):
            del at[k]
    elif isinstance(at, dict) and k in at:
        del at[k]
    return d


def there(d, p):
    if d is None:
        return SKIP
    v = walk(d, p)
    return SKIP if v is SKIP else int(v is not GONE)


def keys(d, p):
    v = read(d, p)
    return list(v) if isinstance(v, dict) else SKIP


def length(d, p):
    v = read(d, p)
    return len(v) if isinstance(v, (dict, list)) else SKIP


def depth(d):
    return 1 + max([depth(x) for x in (d if isinstance(d, list) else d.values())] or [0]) if isinstance(d, (list, dict)) else 1


def each(d, head, tail):
    v = read(d, head)
    if v is SKIP or not isinstance(v, list):
        return SKIP
    out = [walk(x, tail) for x in v]
    return SKIP if SKIP in [x for x in out if x is SKIP] else [x for x in out if x is not GONE]


def exact(a, b):
    """the same value, 1 and True not being the same"""
    return json.dumps(a) == json.dumps(b) if not isinstance(a, Err) else False


def lit(s):
    return "'%s'" % s


VALUES = [("7", 7), ("'y'", "y"), ("null", None), ("json_array(1, 'z')", [1, "z"]), ("e", {"q": [5]}), ("f", "t")]


def units(tier):
    out = [("one", i, tier) for i in range(len(paths(2)))]
    out += [("three", i, tier) for i in range(49)]
    out += [("pairs", i, tier) for i in range(len(paths(2)))]
    return out + [("star", None, tier), ("whole", None, tier), ("column", None, tier), ("places", None, tier)]


class Table(object):
    def __init__(self, docs, rec):
        gc.collect()
        self.e, self.docs, self.rec = Engine({"timezone": "UTC"}), json.loads(json.dumps(docs)), rec
        self.e.put("t", [{"id": i, "d": copy.deepcopy(d), "j": json.dumps(d), "e": {"q": [5]}, "f": "t"} for i, d in enumerate(docs, 1)])
        self.kept = json.dumps(self.e.rows("t"))
        self.n = 0

    def ask(self, columns, extra=""):
        """columns: [(place, sql, f(document))]"""
        self.n += 1
        if self.n % 20 == 0:
            gc.collect()
        with watchdog(60):
            got = self.e.query("select id, %s from t%s" % (", ".join("%s as v%d" % (s, i) for i, (_, s, _) in enumerate(columns)), extra))
        if isinstance(got, Err) or len(got) != len(self.docs):
            if len(columns) > 1:
                for c in columns:
                    self.ask([c])
                return
            return self.rec.bad(columns[0][0], "%s gives %s" % (columns[0][1], str(got)[:200]), {"expression": columns[0][1]})
        for i, (place, sql, f) in enumerate(columns):
            for r, d in zip(got, self.docs):
                want = f(d)
                if not self.rec.state(sql, json.dumps(d)):
                    continue
                self.rec.transitions += 1
                if want is SKIP:
                    self.rec.ok("open")
                elif exact(r["v%d" % i], want):
                    self.rec.ok((place, json.dumps(want)), sql)
                else:
                    self.rec.bad(place, "%s of %s gives %s instead of %s" % (sql, json.dumps(d), json.dumps(r["v%d" % i], default=str), json.dumps(want)), {"expression": sql, "document": json.dumps(d)})
        self.same(columns[0][1])

    def same(self, sql):
        if json.dumps(self.e.rows("t")) == self.kept:
            return self.rec.ok("kept")
        changed = [r for r, k in zip(self.e.rows("t"), json.loads(self.kept)) if json.dumps(r) != json.dumps(k)]
        self.rec.bad("stored", "after select %s the stored row is %s" % (sql, json.dumps(changed[:1])), {"expression": sql})
        self.e.put("t", json.loads(self.kept))


def explore(unit, rec):
    what, i, tier = unit
    globals()["do_" + what](i, tier, rec)


def reads(p):
    s = lit(spell(p))
    out = []
    for c in "dj":
        out += [("extract", "json_extract(%s, %s)" % (c, s), lambda d: read(d, p)), ("contains path", "json_contains_path(%s, 'one', %s)" % (c, s), lambda d: there(d, p)), ("contains path", "json_contains_path(%s, 'all', %s)" % (c, s), lambda d: there(d, p)),
                ("keys", "json_keys(%s, %s)" % (c, s), lambda d: keys(d, p)), ("length", "json_length(%s, %s)" % (c, s), lambda d: length(d, p)), ("arrow", "%s->%s" % (c, s), lambda d: read(d, p)), ("arrow", "%s->>%s" % (c, s), lambda d: read(d, p))]
    return out


def writes(p):
    s = lit(spell(p))
    out = []
    for c in "dj":
        out += [("set", "json_set(%s, %s, %s)" % (c, s, sql), lambda d, v=v: put(d, p, v)) for sql, v in VALUES] + [("remove", "json_remove(%s, %s)" % (c, s), lambda d: drop(d, p))]
    return out


def do_one(i, tier, rec):
    p = paths(2)[i]
    t = Table(documents(tier), rec)
    t.ask(reads(p))
    t.ask(writes(p))
    # what is set is there, and the rest stays
    s = lit(spell(p))
    if p:
        t.ask([("set and read", "json_extract(json_set(d, %s, 7), %s)" % (s, lit(spell(q))), lambda d, q=q: SKIP if put(d, p, 7) is SKIP else read(put(d, p, 7), q)) for q in paths(1)[1:]] +
              [("set and set", "json_set(json_set(j, %s, 7), %s, 8)" % (s, s), lambda d: SKIP if put(d, p, 7) is SKIP else put(put(d, p, 7), p, 8)), ("set and remove", "json_remove(json_set(d, %s, e), %s)" % (s, s), lambda d: SKIP if put(d, p, 7) is SKIP else drop(put(d, p, {"q": [5]}), p))])


def do_three(i, tier, rec):
    t = Table(level(SCALARS, SCALARS[:2], KEYS[:2]) + [[[[1, 2], {"a": 3}], {"b": [4, 5, 6]}], {"a": {"b": {"k k": 1, "a": 2}, "a": [[1], 2]}, "b": [{"a": 1}, {"b": 2}, [3]]}] if tier == "quick" else documents(tier), rec)
    for x in LEGS:
        p = (LEGS[i // 7], LEGS[i % 7], x)
        t.ask(reads(p))
        t.ask(writes(p)[:: 1 if tier != "quick" else 2])


def do_pairs(i, tier, rec):
    p = paths(2)[i]
    if not p:
        return
    docs = [1, {}, [], [1, 2], {"a": 1, "b": 2}, [[1, 2], {"a": 1}, 3], {"a": [1, {"b": 2}], "b": {"a": {"k k": 1}, "k k": [0]}}, {"a": {"a": 1, "b": 2, "k k": 3}, "k k": {"a": None}}, [[[1], [2]], [{"a": 1}, {"a": None}]]]
    t = Table(docs if tier == "quick" else docs + documents("quick")[:102], rec)
    s = lit(spell(p))
    after = lambda f, d, g: SKIP if f(d) is SKIP else g(f(d))
    for q in paths(2)[1:]:
        r = lit(spell(q))
        t.ask([("set twice", "json_set(%s, %s, 7, %s, e)" % (c, s, r), lambda d: after(lambda x: put(x, p, 7), d, lambda x: put(x, q, {"q": [5]}))) for c in "dj"] +
              [("remove twice", "json_remove(%s, %s, %s)" % (c, s, r), lambda d: after(lambda x: drop(x, p), d, lambda x: drop(x, q))) for c in "dj"] +
              [("set removed", "json_set(json_remove(d, %s), %s, f)" % (s, r), lambda d: after(lambda x: drop(x, p), d, lambda x: put(x, q, "t"))), ("remove set", "json_remove(json_set(d, %s, json_array(1, 2)), %s)" % (s, r), lambda d: after(lambda x: put(x, p, [1, 2]), d, lambda x: drop(x, q))),
               ("set from", "json_set(d, %s, json_extract(d, %s))" % (s, r), lambda d: SKIP if read(d, q) is SKIP else put(d, p, read(d, q))), ("extract extract", "json_extract(json_extract(d, %s), %s)" % (s, r), lambda d: SKIP if isinstance(read(d, p), str) else after(lambda x: read(x, p), d, lambda x: read(x, q))),
               ("one of two", "json_contains_path(d, 'one', %s, %s)" % (s, r), lambda d: SKIP if SKIP in (there(d, p), there(d, q)) else max(there(d, p), there(d, q))), ("all of two", "json_contains_path(j, 'all', %s, %s)" % (s, r), lambda d: SKIP if SKIP in (there(d, p), there(d, q)) else min(there(d, p), there(d, q)))])


def do_star(_, tier, rec):
    t = Table(documents(tier) + [[{"a": 1, "b": [2]}, {"a": None}, 3, [4], {"b": {"a": 5}}], {"a": [{"a": 1}, {"b": 2}, {"a": {"b": 3}}], "b": [[1, 2], [3]]}], rec)
    for head in paths(1):
        s = spell(head)
        t.ask([("star", "json_extract(%s, '%s[*]')" % (c, s), lambda d: (lambda v: v if isinstance(v, list) else SKIP)(read(d, head))) for c in "dj"])
        t.ask([("star", "json_extract(%s, '%s[*]%s')" % (c, s, spell(tail)[1:]), lambda d, tail=tail: each(d, head, tail)) for c in "dj" for tail in paths(2 if tier != "quick" else 1)[1:]])


def do_whole(_, tier, rec):
    t = Table(documents(tier), rec)
    t.ask([("depth", "json_depth(%s)" % c, lambda d: SKIP if d is None else depth(d)) for c in "dj"] + [("length", "json_length(%s)" % c, lambda d: len(d) if isinstance(d, (list, dict)) else SKIP) for c in "dj"] +
          [("keys", "json_keys(%s)" % c, lambda d: list(d) if isinstance(d, dict) else SKIP) for c in "dj"] + [("valid", "json_valid(j)", lambda d: 1), ("decode", "json_decode(j)", lambda d: d), ("encode", "json_decode(json_encode(d))", lambda d: d)])
    texts = sorted({json.dumps(d)[:n] for d in documents("quick")[:102] if isinstance(d, (list, dict)) for n in range(1, len(json.dumps(d)))})
    t.e.put("x", [{"id": i, "s": s} for i, s in enumerate(texts, 1)])
    got = t.e.query("select id, json_valid(s) as v, json_valid(concat(s, '}')) as w from x")
    if isinstance(got, Err) or len(got) != len(texts):
        return rec.bad("valid", "json_valid gives %s" % str(got)[:200], {"expression": "json_valid(s)"})
    for r, s in zip(got, texts):
        rec.transitions += 1
        if rec.state("valid", s):
            rec.expect("valid", 0, r["v"], {"text": s}, outcome=("valid", 0))


def do_column(_, tier, rec):
    """the path, the value and the document in columns"""
    docs = documents("quick")[:102]
    gc.collect()
    e = Engine({"timezone": "UTC"})
    ps = paths(2)[1:]
    combos = list(itertools.product(docs, ps))
    e.put("t", [{"id": i, "d": copy.deepcopy(d), "j": json.dumps(d), "p": spell(p), "v": i} for i, (d, p) in enumerate(combos, 1)])
    kept = json.dumps(e.rows("t"))
    for place, sql, f in (("extract column", "json_extract(d, p)", lambda i, d, p: read(d, p)), ("extract column", "json_extract(j, p)", lambda i, d, p: read(d, p)), ("set column", "json_set(d, p, v)", lambda i, d, p: put(d, p, i)), ("set column", "json_set(j, p, v)", lambda i, d, p: put(d, p, i)),
                          ("set column", "json_set(d, p, p)", lambda i, d, p: put(d, p, spell(p))), ("remove column", "json_remove(d, p)", lambda i, d, p: drop(d, p)), ("contains path column", "json_contains_path(d, 'one', p)", lambda i, d, p: there(d, p)),
                          ("set column", "json_extract(json_set(d, p, v), p)", lambda i, d, p: SKIP if put(d, p, i) is SKIP else read(put(d, p, i), p))):
        got = e.query("select id, %s as v from t" % sql)
        if isinstance(got, Err) or len(got) != len(combos):
            rec.bad(place, "%s gives %s" % (sql, str(got)[:200]), {"expression": sql})
            continue
        for r, (d, p) in zip(got, combos):
            want = f(r["id"], d, p)
            rec.transitions += 1
            if rec.state(sql, json.dumps(d), p) and want is not SKIP:
                if exact(r["v"], want):
                    rec.ok((place, json.dumps(want)), sql)
                else:
                    rec.bad(place, "%s of %s at %s gives %s instead of %s" % (sql, json.dumps(d), spell(p), json.dumps(r["v"]), json.dumps(want)), {"expression": sql, "document": json.dumps(d), "path": spell(p)})
        if json.dumps(e.rows("t")) != kept:
            rec.bad("stored", "after select %s the stored rows are others" % sql, {"expression": sql})
            e.put("t", json.loads(kept))


def do_places(_, tier, rec):
    docs = [{"a": i % 3, "b": {"a": i % 2, "k k": [i, i + 1]}, "k k": "t%d" % (i % 4)} for i in range(9)]
    t = Table(docs, rec)
    ids = range(1, 10)

    def expect(place, sql, want, order=False):
        got = t.e.query(sql)
        rec.transitions += 1
        have = got if isinstance(got, Err) else [tuple(r.values()) for r in got]
        same = not isinstance(got, Err) and (json.dumps(have) == json.dumps(want) if order else sorted(map(json.dumps, have)) == sorted(map(json.dumps, want)))
        if rec.state(sql):
            rec.ok((place, str(want)), sql) if same else rec.bad(place, "%s gives %s instead of %s" % (sql, str(have)[:200], str(want)[:200]), {"sql": sql})
        t.same(sql)
    for c in "dj":
        for p in ((".a",), (".b", ".a"), (".b", '."k k"', "[1]"), ('."k k"',)):
            s = lit(spell(p))
            f = "json_extract(%s, %s)" % (c, s)
            vals = [read(d, p) for d in docs]
            one = vals[4]
            q = repr(one)
            count = {}
            for v in vals:
                count[v] = count.get(v, 0) + 1
            expect("where", "select id from t where %s = %s" % (f, q), [(i,) for i, v in zip(ids, vals) if v == one])
            expect("where", "select id from t where %s->%s != %s" % (c, s, q), [(i,) for i, v in zip(ids, vals) if v != one])
            expect("group by", "select %s as v, count(*) as n from t group by %s" % (f, f), list(count.items()))
            expect("order by", "select %s as v, id from t order by v, id" % f, sorted(zip(vals, ids)), True)
            expect("aggregate", "select max(%s) as v, count(distinct %s) as n from t" % (f, f), [(max(vals), len(count))])
            expect("join", "select x.id as i, y.id as k from t x join t y on %s = %s where x.id < 4" % (f.replace("(%s" % c, "(y.%s" % c), f.replace("(%s" % c, "(x.%s" % c)), [(i, k) for i, v in zip(ids, vals) if i < 4 for k, w in zip(ids, vals) if v == w])
            expect("derived", "select id, json_extract(w, %s) as v from (select id, json_set(%s, %s, 5) as w from t) x" % (s, c, s), [(i, 5) for i in ids])
            expect("where set", "select id from t where json_extract(json_set(%s, %s, id), %s) > 6" % (c, s, s), [(i,) for i in ids if i > 6])
            # results that are stored again, and changed again
            t.e.run("insert into u select id, json_set(%s, %s, 'n') as d from t;" % (c, s))
            expect("stored again", "select id, d from u", [(i, put(d, p, "n")) for i, d in zip(ids, docs)])
            expect("stored again", "select id, json_remove(d, %s) as d from u" % s, [(i, drop(put(d, p, "n"), p)) for i, d in zip(ids, docs)])
            expect("stored again", "select id, d from u", [(i, put(d, p, "n")) for i, d in zip(ids, docs)])
            t.e.run("insert into w select id, d from t;")
            expect("copy", "select id, json_set(d, %s, 'n') as d from w" % s, [(i, put(d, p, "n")) for i, d in zip(ids, docs)])
            expect("copy", "select id, d from w", [(i, d) for i, d in zip(ids, docs)])
            expect("variable", "select id, json_set(d, %s, 1) as v, d as d from t" % s, [(i, put(d, p, 1), d) for i, d in zip(ids, docs)])
            expect("twice", "select id, json_set(d, %s, 1) as v, json_extract(d, %s) as w, json_remove(d, %s) as x from t" % (s, s, s), [(i, put(d, p, 1), read(d, p), drop(d, p)) for i, d in zip(ids, docs)])
            for name in "uw":
                t.e.run("delete from %s;" % name)
