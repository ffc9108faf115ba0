"""Helper for the "every table in the bound x every query" checks."""
from eng import Engine, Err, bag, key, tup, sequences


def mk(rows, cols, **extra):
    out = []
    for i, r in enumerate(rows):
        d = {"id": i}
        d.update(zip(cols, r))
        d.update(extra)
        out.append(d)
    return out


def rnd(rows):
    if isinstance(rows, Err):
        return rows
    return [tuple(round(x, 9) if isinstance(x, float) else x for x in r) for r in rows]


def compare(rec, e, sql, cols, expected, ordered=False, setup=None, sample=True, keyhead=None):
    """Runs one SELECT on the real engine and compares with the oracle's rows."""
    got = rnd(tup(e.query(sql), cols))
    expected = rnd([tuple(x) for x in expected])
    if not ordered:
        got, expected = bag(got), bag(expected)
    k = "%s | %s" % (sql, keyhead if keyhead is not None else short_tables(setup))
    return rec.expect(k, expected, got, {"tables": setup, "sql": sql, "cols": cols},
                      sample={"tables": short_tables(setup), "sql": sql, "rows": repr(got)[:160]} if sample else None)


def short_tables(t):
    if not t:
        return ""
    return "; ".join("%s%s" % (n, [tuple(r.values()) for r in rs] if isinstance(rs, list) else rs) for n, rs in sorted(t.items()))
