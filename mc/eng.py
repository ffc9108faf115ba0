"""Driving the real engine: tables in the in-memory database, SQL scripts, results."""
import copy
import gc
import itertools
import logging
import sys

from core import watchdog

logging.disable(logging.CRITICAL)

from syncanysql import ScriptEngine      # noqa: E402  (the code under test, from /repo)


gc.disable()            # collected by hand every few hundred executions (speed)


class Err(object):
    """An execution that ended with an exception."""

    def __init__(self, exc):
        self.name = exc.__class__.__name__
        self.msg = str(exc)

    def __repr__(self):
        return "Err(%s: %s)" % (self.name, self.msg[:160])

    def __eq__(self, other):
        return isinstance(other, Err)

    def __hash__(self):
        return 1


class Engine(object):
    def __init__(self, config=None):
        cfg = {"loglevel": "CRITICAL"}
        cfg.update(config or {})
        self.e = ScriptEngine(cfg)
        self.e.setup()
        self.n = 0
        self._stores = {}

    # -- tables -----------------------------------------------------------------------------------
    def _find_store(self, db):
        for key, factory in self.e.manager.database_manager.factorys.items():
            if factory.__class__.__name__ == "MemoryDBFactory" and str(key).endswith("::" + db):
                for driver in factory.drivers:
                    return driver.instance
        return None

    def store(self, db="--"):
        """The dict behind an in-memory database."""
        if db not in self._stores:
            s = self._find_store(db)
            if s is None:
                # the driver is created on first use
                d = self.e.get_database(db)
                d.insert(db + ".t__touch", ["id"], datas=[{"id": 0}]).commit()
                d.delete(db + ".t__touch", ["id"]).commit()
                s = self._find_store(db)
            self._stores[db] = s
        return self._stores[db]

    def clear(self):
        self.store().clear()

    def put(self, name, rows, db="--"):
        s = self.store(db)
        s.pop(db + "." + name, None)
        if rows:
            s[db + "." + name] = [dict(r) for r in rows]

    def rows(self, name, db="--"):
        return copy.deepcopy(list(self.store(db).get(db + "." + name, [])))

    def tables(self, db="--"):
        return {k: copy.deepcopy(list(v)) for k, v in self.store(db).items() if v}

    # -- execution --------------------------------------------------------------------------------
    def run(self, sql):
        """Executes a script; returns None or an Err."""
        try:
            with watchdog():
                self.e.execute(sql)
        except Exception as exc:
            return Err(exc)
        return None

    def query(self, select):
        """Rows of a SELECT, in order, as a list of dicts -- or Err."""
        self.n += 1
        if self.n % 400 == 0:
            gc.collect()
        self.store().pop("--.__q", None)
        err = self.run("insert into `__q` " + select)
        rows = self.store().pop("--.__q", [])
        if err is not None:
            return err
        return [dict(r) for r in rows]

    def close(self):
        try:
            self.e.close()
        except Exception:
            pass


def tup(rows, cols):
    """Rows as tuples in column order (missing column -> the marker '<missing>'; other columns, or in another order -> their names in front)."""
    if isinstance(rows, Err):
        return rows
    cols = list(cols)
    return [tuple(r.get(c, "<missing>") for c in cols) if list(r) == cols else ("<columns %s>" % ",".join(r),) + tuple(r.get(c, "<missing>") for c in cols) for r in rows]


def key(v):
    """Total order over the small value domains used by the checks."""
    if isinstance(v, (list, tuple)):
        return (5, tuple(key(x) for x in v))
    if v is None:
        return (0, 0)
    if isinstance(v, bool):
        return (1, v)
    if isinstance(v, (int, float)):
        return (2, v)
    if isinstance(v, dict):
        return (6, tuple(sorted((k, key(x)) for k, x in v.items())))
    return (3, str(type(v)), str(v))


def bag(rows):
    """Multiset as a canonical sorted list."""
    if isinstance(rows, Err):
        return rows
    return sorted(rows, key=key)


def sequences(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield s
