"""C18  Configuration is layered: home files, then files of the working directory, then the configuration of the engine, then SET; the last layer that gives a setting decides.

Every assignment of contents to the layers (within the bound) is written to a scratch home and working directory and loaded by the real code; the settings that result, and the queries that depend on
them, are compared with a fold of the layers.
"""
import copy
import itertools
import json
import os
import shutil
import sys
import tempfile

from core import watchdog
from eng import Err

LEVEL = "model_checking"
BOUND = {t: "every choice of {absent, present, falsy} per layer over 5 layers (home, extended by the home file, working directory, extended by it, engine) for 5 plain settings; every subset of 2 entries per layer over 4 layers "
            "for 6 mapping settings; every choice of %s contents per layer over %s layers for databases and caches (1-2 names, 1-2 attributes); every file format (json, yaml) of the files; "
            "executes and pypackage paths; the same engine settings given to 2 engines; encoding and formats x every sequence of <=%d databases of 5 drivers; every sequence of <=%d extensions that load, are missing, fail or are dotted; every sequence of <=%d SETs over 12 on top of them; observed by the loaded settings and by queries reading "
            "the configured databases, calling the configured modules, formatting with the configured formats" % (
                ("6", "4", 3, 3, 3) if t == "quick" else ("7", "4", 4, 4, 4)) for t in ("quick", "thorough")}
ASSUME = ["a json and a yaml file in the same directory are not given different values for one setting: their order is not documented"]

FORMATS = list(itertools.product(("json", "yaml"), repeat=2))


class World(object):
    """A scratch home and working directory; the files of each layer."""

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="mc18-", dir=os.environ.get("MC_SCRATCH") or None)
        self.n = 0
        self.saved = (os.getcwd(), dict(os.environ), list(sys.path))

    def new(self, home, cwd, fmt=("json", "json"), files=()):
        self.n += 1
        if self.n > 1:
            shutil.rmtree(self.dir, ignore_errors=True)
        # the names vary, the result may not depend on them
        self.dir = os.path.join(self.base, "w%d" % self.n)
        self.home, self.cwd = os.path.join(self.dir, "h%d" % (self.n % 7)), os.path.join(self.dir, "c%d" % (self.n % 5))
        syncany = os.path.join(self.home, ".syncany")
        os.makedirs(syncany)
        os.makedirs(self.cwd)
        os.environ.pop("SYNCANY_HOME", None)
        os.environ["HOME"] = self.home
        if self.n % 3 == 0:
            syncany = os.environ["SYNCANY_HOME"] = os.path.join(self.dir, "other")
            os.makedirs(syncany)
        self.syncany = syncany
        for directory, content, f, other in ((syncany, home, fmt[0], "base_home.json"), (self.cwd, cwd, fmt[1], "base_cwd.json")):
            if content is None:
                continue
            content = copy.deepcopy(content)
            ext = content.pop("<extends>", None)
            if ext is not None:
                name = os.path.join(directory, other)
                json.dump(ext, open(name, "w"))
                content["extends"] = [name]
            with open(os.path.join(directory, "config." + f), "w") as fp:
                # every JSON document is a YAML document
                json.dump(content, fp)
        for name, text in dict(files).items():
            path = os.path.join(self.dir, name.replace("HOME", os.path.relpath(self.syncany, self.dir)).replace("CWD", os.path.relpath(self.cwd, self.dir)))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, "w").write(text)
        os.chdir(self.cwd)

    def close(self):
        os.chdir(self.saved[0])
        os.environ.clear()
        os.environ.update(self.saved[1])
        sys.path[:] = self.saved[2]
        shutil.rmtree(self.base, ignore_errors=True)


def loaded(custom=None):
    from syncanysql.config import GlobalConfig
    path = list(sys.path)
    try:
        with watchdog():
            g = GlobalConfig()
            ex = g.load(copy.deepcopy(custom))
            return g, ex
    except Exception as exc:
        return Err(exc), None
    finally:
        sys.path[:] = path


ABSENT = "<absent>"


def fold(*layers):
    """The layers in order of precedence, lowest first; each a dict of settings."""
    out = {}
    for layer in layers:
        for k, v in (layer or {}).items():
            if k in ("imports", "sources", "defines", "variables", "options", "arguments"):
                out.setdefault(k, {}).update(v)
            elif k in ("databases", "caches"):
                named = {d["name"]: d for d in out.setdefault(k, [])}
                for d in v:
                    if d["name"] in named:
                        named[d["name"]].update(d)
                    else:
                        out[k].append(dict(d))
                        named[d["name"]] = out[k][-1]
            elif k == "executes":
                out[k] = out.get(k, []) + list(v)
            else:
                out[k] = v
    return out


def units(tier):
    out = [("plain", k) for k in ("loglevel", "encoding", "datetime_format", "date_format", "x_setting")]
    out += [("map", k) for k in ("imports", "sources", "defines", "variables", "options", "arguments")]
    out += [("named", (k, i)) for k in ("databases", "caches") for i in range(6 if tier == "quick" else 7)]
    out += [("executes", None), ("use", "databases"), ("use", "imports"), ("use", "formats"), ("shared", None), ("paths", None), ("files", None), ("extensions", None)] + [("set", i) for i in range(len(SETS))]
    return [u + (tier,) for u in out]


PLAIN = {"loglevel": ["INFO", ""], "encoding": ["utf-8", ""], "datetime_format": ["%Y", ""], "date_format": ["%m", ""], "x_setting": [1, 0]}


def dbs(n, tag):
    """The contents a layer may give for databases / caches."""
    out = [None, [], [{"name": "d", "driver": "json", "path": tag}], [{"name": "d", "driver": "json", "extra": tag}],
           [{"name": "e", "driver": "memory", "path": tag}, {"name": "d", "driver": "json", "path": tag, "extra": "all " + tag}],
           [{"name": "e", "driver": "memory", "extra": tag}], [{"name": "d", "driver": "memory"}, {"name": "e", "driver": "json", "path": tag}]]
    return out[:n]


def layered(*layers):
    """(home, home base, cwd, cwd base, engine) -> the contents of the two files"""
    home, hbase, cwd, cbase, custom = layers
    h = dict(home) if home is not None else None
    c = dict(cwd) if cwd is not None else None
    if hbase is not None:
        h = dict(h or {}, **{"<extends>": hbase})
    if cbase is not None:
        c = dict(c or {}, **{"<extends>": cbase})
    return h, c, custom


def explore(unit, rec):
    kind, arg, tier = unit
    w = World()
    try:
        {"plain": plain, "map": mapping, "named": named, "executes": executes, "use": use, "shared": shared, "paths": paths, "set": sets, "files": files, "extensions": extensions}[kind](w, arg, tier, rec)
    finally:
        w.close()


def check(w, rec, key, layers, fmt, setting, pick, case):
    home, cwd, custom = layered(*layers)
    w.new(home, cwd, fmt)
    rec.transitions += 1
    g, _ = loaded(custom)
    exp = pick(fold(layers[1], layers[0], layers[3], layers[2], layers[4]))
    got = g if isinstance(g, Err) else pick(g.get())
    rec.expect(key, exp, got, dict(case, home=home, cwd=cwd, engine=custom, formats=fmt), outcome=repr(exp)[:40], sample={"case": key, "result": got} if rec.transitions % 211 == 1 else None)


def plain(w, k, tier, rec):
    good, falsy = PLAIN[k]
    n = 0
    for choice in itertools.product(("-", "set", "falsy"), repeat=5):
        layers = []
        for i, c in enumerate(choice):
            layers.append(None if c == "-" else {k: falsy if c == "falsy" else good if k == "encoding" and i else "%s%d" % (good, i) if isinstance(good, str) and k not in ("encoding", "loglevel")
                                                 else good if isinstance(good, str) else good + i})
            if c != "-" and i % 2 == 0:
                layers[-1]["other%d" % i] = i
        n += 1
        fmt = FORMATS[n % 4]
        if rec.state(k, choice):
            check(w, rec, "%s %s %s" % (k, choice, fmt), layers, fmt, k, lambda c: (c.get(k, ABSENT), c.get("other0"), c.get("other2"), c.get("other4")), {"setting": k})


def mapping(w, k, tier, rec):
    n = 0
    for choice in itertools.product(range(5), repeat=4):
        layers = []
        for i, c in enumerate(choice):
            entries = {}
            if c & 1:
                entries["a"] = "a%d" % i
            if c & 2:
                entries["b"] = "b%d" % i
            layers.append(None if c == 4 else {k: entries})
        layers = [layers[0], layers[1], layers[2], None, layers[3]]
        n += 1
        if rec.state(k, choice):
            check(w, rec, "%s %s" % (k, choice), layers, FORMATS[n % 4], k, lambda c: c.get(k) or {}, {"setting": k})


def named(w, arg, tier, rec):
    k, first = arg
    n = 0
    size = 6 if tier == "quick" else 7

    def pick(c):
        return sorted((json.dumps(d, sort_keys=True) for d in c.get(k, []) if d["name"] not in ("-", "--")))
    for choice in itertools.product(range(size), repeat=3):
        choice = (first,) + choice
        layers = []
        for i, c in enumerate(choice):
            content = dbs(size, "p%d" % i)[c]
            layers.append(None if content is None else {k: content})
        order = (layers[0], None, layers[1], layers[2], layers[3])
        n += 1
        if rec.state(k, choice):
            check(w, rec, "%s %s" % (k, choice), order, FORMATS[n % 4], k, pick, {"setting": k})


def engine(custom=None):
    from syncanysql import ScriptEngine
    e = ScriptEngine(custom)
    return e


def attempt(f):
    path = list(sys.path)
    try:
        with watchdog():
            return f()
    except Exception as exc:
        return Err(exc)
    finally:
        sys.path[:] = path


def executes(w, arg, tier, rec):
    """Initialising scripts run in order: home, working directory, engine; each found in the working directory first, then in the home."""
    n = 0
    scripts = {"HOME/h.sql": "insert into `log` select 1 as id", "CWD/c.sql": "insert into `log` select 2 as id", "HOME/both.sql": "insert into `log` select 3 as id",
               "CWD/both.sql": "insert into `log` select 4 as id", "CWD/two.sql": "insert into `log` select 5 as id; insert into `log` select 6 as id"}
    effect = {"h.sql": [1], "c.sql": [2], "both.sql": [4], "two.sql": [5, 6]}
    lists = [None, [], ["h.sql"], ["c.sql"], ["both.sql", "h.sql"], ["two.sql", "c.sql"], "h.sql"]
    for a, b, c in itertools.product(lists, repeat=3):
        n += 1
        layers = [None if x is None else {"executes": x} for x in (a, b, c)]
        if not rec.state(repr((a, b, c))):
            continue
        w.new(layers[0], layers[1], FORMATS[n % 4], scripts)
        order = [x for l in (a, b, c) if l is not None for x in ([l] if isinstance(l, str) else l)]
        exp = [i for x in order for i in effect[x]]

        def f():
            e = engine(layers[2])
            e.execute("set @z = 1")
            rows = [r["id"] for r in e.get_memory_datas("log")]
            e.close()
            return rows
        rec.transitions += 1
        rec.expect("executes %r" % ((a, b, c),), exp, attempt(f), {"home": a, "cwd": b, "engine": c}, outcome=len(exp))
    for name in ("none.sql",):
        w.new({"executes": [name]}, {}, ("json", "json"), scripts)
        got = attempt(lambda: engine().execute("set @z = 1"))
        if isinstance(got, Err):
            rec.ok("refused")
        else:
            rec.bad("missing init script", "a missing initialising script was ignored", {})


def use(w, what, tier, rec):
    """Queries see the merged settings."""
    n = 0
    if what == "databases":
        for choice in itertools.product((None, "pa", "pb", "pc"), repeat=4):
            n += 1
            # home, cwd, engine, set
            layers = [None if c is None else {"databases": [{"name": "d", "driver": "json", "path": c}]} for c in choice]
            if not rec.state(choice):
                continue
            w.new(layers[0], layers[1], FORMATS[n % 4], {"CWD/%s/t.json" % p: '[{"id": "%s"}]' % p for p in ("pa", "pb", "pc")})
            last = [c for c in choice if c is not None]

            def f():
                e = engine(layers[2])
                if choice[3] is not None:
                    if n % 2 or choice[:3] == (None, None, None):
                        e.execute("set @config.databases.d = '{\"driver\": \"json\", \"path\": \"%s\"}'" % choice[3])
                    else:
                        e.execute("set @databases.d.path = '\"%s\"'" % choice[3])
                e.execute("insert into `o` select id from d.`t.json`")
                rows = [r["id"] for r in e.get_memory_datas("o")]
                e.close()
                return rows
            rec.transitions += 1
            got = attempt(f)
            if not last:
                got, exp = isinstance(got, Err), True
            else:
                exp = last[-1:]
            rec.expect("database %r" % (choice,), exp, got, {"layers": choice}, outcome=repr(exp))
    elif what == "imports":
        mods = {"CWD/mc18_%s.py" % m: "def which():\n    return '%s'\n" % m for m in ("a", "b", "c")}
        w.new({}, {}, ("json", "json"), mods)
        keep = os.path.join(w.base, "mods")
        shutil.copytree(w.cwd, keep)
        sys.path.insert(0, keep)
        for choice in itertools.product((None, "a", "b", "c"), repeat=4):
            n += 1
            layers = [None if c is None else {"imports": {"m": "mc18_" + c}} for c in choice]
            if not rec.state(choice):
                continue
            w.new(layers[0], layers[1], FORMATS[n % 4])
            last = [c for c in choice if c is not None]

            def f():
                e = engine(layers[2])
                if choice[3] is not None:
                    e.execute("use `mc18_%s as m`" % choice[3] if n % 2 else "set @config.imports.m = 'mc18_%s'" % choice[3])
                e.execute("insert into `o` select m$which() as id")
                rows = [r["id"] for r in e.get_memory_datas("o")]
                e.close()
                return rows
            rec.transitions += 1
            got = attempt(f)
            if not last:
                got, exp = isinstance(got, Err), True
            else:
                exp = last[-1:]
            rec.expect("import %r" % (choice,), exp, got, {"layers": choice}, outcome=repr(exp))
    else:
        import datetime
        when = datetime.datetime(2021, 3, 4, 5, 6, 7)
        for choice in itertools.product((None, "%Y/%m/%d %H", "%d.%m.%Y", "%H:%M"), repeat=4):
            n += 1
            layers = [None if c is None else {"datetime_format": c} for c in choice]
            if not rec.state(choice):
                continue
            w.new(layers[0], layers[1], FORMATS[n % 4])
            last = ([c for c in choice if c is not None] or ["%Y-%m-%d %H:%M:%S"])[-1]

            def f():
                e = engine(layers[2])
                e.push_memory_datas("t", [{"id": 1, "d": when}])
                e.set_variable("d", when)
                if choice[3] is not None:
                    e.execute("set @config.datetime_format = '%s'" % choice[3])
                e.execute("insert into `o` select '${@d}' as id")
                rows = [r["id"] for r in e.get_memory_datas("o")]
                e.close()
                return rows
            rec.transitions += 1
            rec.expect("datetime format %r" % (choice,), [when.strftime(last)], attempt(f), {"layers": choice}, outcome=last)
            if choice[3] is None:
                def g():
                    e = engine(dict(layers[2] or {}, databases=[{"name": "j", "driver": "json", "path": "./"}]))
                    e.push_memory_datas("t", [{"id": 1, "d": when}])
                    e.execute("insert into j.`o.json` select id, d from t")
                    e.close()
                    return json.load(open("o.json"))[0]["d"]
                fmt = ([c for c in choice if c is not None] or [None])[-1]
                rec.transitions += 1
                rec.expect("datetime format of files %r" % (choice[:3],), when.strftime(fmt) if fmt else "2021-03-04T05:06:07+00:00", attempt(g), {"layers": choice}, outcome=fmt)


def shared(w, arg, tier, rec):
    """Two engines given the same settings: neither changes them, nor the other."""
    base = {"databases": [{"name": "d", "driver": "json", "path": "pa"}], "imports": {"m": "math"}, "variables": {"v": {"x": 1}}, "options": {"o": [1]}, "datetime_format": "%Y", "executes": ["i.sql"],
            "caches": [{"name": "c", "database": "d", "k": 1}], "defines": {"f": ["#const", 1]}}
    changes = ["set global @config.databases.d.path = '\"pb\"'", "set global @config.imports.m = 'cmath'", "set global @config.variables.v = '2'", "set global @config.options.o = '[2]'",
               "set global @config.databases.n = '{\"driver\": \"memory\"}'", "set global @config.databases.d.extra = '1'", "set @config.databases.d.path = '\"pb\"'", "set @config.imports.m = 'cmath'",
               "use `cmath as m`", "set @config.variables.v = '3'", "insert into `o` select 1 as id", "set global @config.imports.q = 'json'"]

    def view(c):
        return {k: copy.deepcopy(c.get(k)) for k in ("databases", "imports", "variables", "options", "datetime_format", "caches", "defines")}
    for r in (0, 1, 2):
        for seq in itertools.product(changes, repeat=r):
            if not rec.state(seq):
                continue
            w.new({}, {}, ("json", "json"), {"CWD/i.sql": "insert into `log` select 1 as id"})

            def f():
                given = copy.deepcopy(base)
                a = engine(given)
                a.execute("set @z = 1")
                c = engine(given)
                c.execute("set @z = 1")
                before = view(c.executor.session_config.get())
                for s in seq:
                    a.execute(s)
                b = engine(given)
                b.execute("set @z = 1")
                got = (given == base, view(c.executor.session_config.get()) == before, view(b.executor.session_config.get()) == before, len(b.get_memory_datas("log")), len(c.get_memory_datas("log")))
                for e in (a, b, c):
                    e.close()
                return got
            rec.transitions += len(seq) + 3
            rec.expect("shared %r" % (seq,), (True, True, True, 1, 1), attempt(f), {"settings": base, "changes": seq}, outcome=len(seq))


def paths(w, arg, tier, rec):
    """pypackage_paths given by any layer make modules importable; the last layer that gives them decides."""
    n = 0
    for choice in itertools.product((None, "str", "list"), repeat=3):
        n += 1
        layers = [None if c is None else {"pypackage_paths": "PKG%d" % i if c == "str" else ["missing", "PKG%d" % i]} for i, c in enumerate(choice)]
        w.new(None, None)
        files = {}
        for i in range(3):
            d = os.path.join(w.dir, "pkg%d" % i)
            os.makedirs(d)
            open(os.path.join(d, "mc18p_%d_%d.py" % (n, i)), "w").write("def f():\n    return %d\n" % i)
        text = json.dumps(layers).replace("PKG", os.path.join(w.dir, "pkg"))
        layers = json.loads(text)
        for directory, content in ((w.syncany, layers[0]), (w.cwd, layers[1])):
            if content is not None:
                json.dump(content, open(os.path.join(directory, "config.json"), "w"))
        given = [i for i, c in enumerate(choice) if c is not None]
        saved = list(sys.path)

        def f():
            e = engine(layers[2])
            e.execute("use `mc18p_%d_%d as m`; insert into `o` select m$f() as id" % (n, given[-1]))
            rows = [r["id"] for r in e.get_memory_datas("o")]
            e.close()
            return rows
        if not given:
            continue
        rec.state(choice)
        rec.transitions += 1
        rec.expect("pypackage_paths %r" % (choice,), [given[-1]], attempt(f), {"layers": layers}, outcome=given[-1])
        sys.path[:] = saved


DRIVERS = ("textline", "json", "csv", "memory", "mysql")


def files(w, arg, tier, rec):
    """The encoding and the formats given for all apply to every database of text files, whatever stands next to it, and to no other; the two databases that every session has are there once."""
    keys = {"encoding": "utf-8", "datetime_format": "%Y", "date_format": "%m", "time_format": "%H"}
    lists = [l for r in range(4 if tier == "quick" else 5) for l in itertools.product(DRIVERS, repeat=r)]
    own = [[], [{"name": "-", "driver": "textline"}], [{"name": "--", "driver": "memory"}], [{"name": "--", "driver": "memory"}, {"name": "-", "driver": "csv"}]]
    n = 0
    for drivers in lists:
        for extra in own if len(drivers) < 3 else own[:1]:
            for given in itertools.product((0, 1), repeat=4) if len(drivers) < 3 else ((1, 1, 1, 1), (1, 0, 0, 0), (0, 0, 1, 0)):
                n += 1
                settings = {k: v for (k, v), g in zip(keys.items(), given) if g}
                if not rec.state(drivers, len(extra), given):
                    continue
                databases = [{"name": "d%d" % i, "driver": d, "x": i} for i, d in enumerate(drivers)] + extra
                layers = [None, None, dict(settings, databases=databases)]
                if n % 3:
                    # the settings and the databases in different layers
                    layers[n % 2], layers[2] = settings, {"databases": databases}
                w.new(layers[0], layers[1], FORMATS[n % 4])
                exp = list(databases)
                for name, driver in (("-", "textline"), ("--", "memory")):
                    if not [d for d in exp if d["name"] == name]:
                        exp.append({"name": name, "driver": driver})
                exp = sorted(json.dumps(dict(d, **settings) if d["driver"] in ("textline", "json", "csv") else d, sort_keys=True) for d in exp)
                g, _ = loaded(layers[2])
                rec.transitions += 1
                got = g if isinstance(g, Err) else sorted(json.dumps(d, sort_keys=True) for d in g.get()["databases"])
                rec.expect("files %s" % (drivers,), exp, got, {"layers": layers}, outcome="%d %s" % (len(exp), sorted(settings)))


def extensions(w, arg, tier, rec):
    """Every extension that can be loaded is, once, in the order given, though others cannot."""
    n = 0
    for r in range(4 if tier == "quick" else 5):
        for kinds in itertools.product(("good", "missing", "broken", "dotted"), repeat=r):
            for layer in range(3):
                n += 1
                if not rec.state(kinds, layer):
                    continue
                w.new(None, None)
                names = []
                for i, kind in enumerate(kinds):
                    name = "mc18x_%d_%d" % (n, i)
                    text = "import os\nos.environ['MC18X'] = os.environ.get('MC18X', '') + ' %d'\n" % i
                    if kind == "dotted":
                        os.makedirs(os.path.join(w.syncany, name))
                        open(os.path.join(w.syncany, name, "__init__.py"), "w").write("")
                        open(os.path.join(w.syncany, name, "inner.py"), "w").write(text)
                        name += ".inner"
                    elif kind != "missing":
                        open(os.path.join(w.syncany, name + ".py"), "w").write(text + ("raise ValueError('broken')\n" if kind == "broken" else ""))
                    names.append(name)
                content = {"extensions": names}
                if layer < 2:
                    json.dump(content, open(os.path.join((w.syncany, w.cwd)[layer], "config.json"), "w"))
                os.environ.pop("MC18X", None)

                def f():
                    e = engine(content if layer == 2 else None)
                    e.execute("set @z = 1")
                    e.close()
                    return os.environ.get("MC18X", "").split()
                rec.transitions += 1
                exp = [str(i) for i, kind in enumerate(kinds) if kind != "missing"]
                import importlib
                importlib.invalidate_caches()
                rec.expect("extensions %s" % (kinds,), exp, attempt(f), {"extensions": kinds, "layer": layer}, outcome=len(exp))
                os.environ.pop("MC18X", None)
                for name in [m for m in sys.modules if m.startswith("mc18x_")]:
                    del sys.modules[name]


# ---------------------------------------------------------------------------------------------- SET
# each: the statement, and what it does to the settings of the session (a layer of its own)
def put_db(name, attrs):
    def f(c):
        d = [x for x in c.setdefault("databases", []) if x["name"] == name]
        if d:
            d[0].clear()
        else:
            c["databases"].append({})
            d = c["databases"][-1:]
        d[0].update(dict({"name": name}, **attrs))
    return f


def put_attr(name, k, v):
    def f(c):
        d = [x for x in c.setdefault("databases", []) if x["name"] == name]
        if not d:
            c["databases"].append({"name": name})
            d = c["databases"][-1:]
        d[0][k] = v
    return f


def put(k, name, v):
    def f(c):
        c.setdefault(k, {})[name] = v
    return f


def plain_put(k, v):
    def f(c):
        c[k] = v
    return f


SETS = [("set @config.databases.d = '{\"driver\": \"json\", \"path\": \"pa\"}'", put_db("d", {"driver": "json", "path": "pa"})),
        ("set @databases.d = '{\"driver\": \"memory\"}'", put_db("d", {"driver": "memory"})), ("set @databases.d.path = '\"pb\"'", put_attr("d", "path", "pb")), ("set @config.databases.e.driver = '\"memory\"'", put_attr("e", "driver", "memory")),
        ("set @databases.e = '{\"driver\": \"json\", \"k\": [1, {\"a\": null}]}'", put_db("e", {"driver": "json", "k": [1, {"a": None}]})),
        ("set @imports.m = 'json'", put("imports", "m", "json")), ("set @config.imports.m = 'math'", put("imports", "m", "math")), ("set @variables.v = '1'", put("variables", "v", 1)),
        ("set @config.variables.v = 'text'", put("variables", "v", "text")), ("set @options.o = '{\"a\": 1}'", put("options", "o", {"a": 1})), ("set @config.datetime_format = '%H'", plain_put("datetime_format", "%H")),
        ("set @defines.f = '[\"#const\", 2]'", put("defines", "f", ["#const", 2]))]


def sets(w, first, tier, rec):
    base = {"databases": [{"name": "d", "driver": "json", "path": "p0", "x": 1}], "imports": {"m": "re"}, "variables": {"v": 0, "w": 5}, "options": {}, "datetime_format": "%Y", "defines": {}}

    def view(c):
        return {"databases": sorted((json.dumps({k: v for k, v in d.items() if k != "datetime_format"}, sort_keys=True) for d in c["databases"] if d["name"] not in ("-", "--"))),
                "rest": {k: c.get(k) for k in ("imports", "variables", "options", "datetime_format", "defines")}}
    w.new({"variables": {"v": -1}}, {"imports": {"m": "os"}})
    for r in range(3 if tier == "quick" else 4):
        for rest in itertools.product(range(len(SETS)), repeat=r):
            seq = (first,) + rest
            if not rec.state(seq):
                continue
            session = {}
            for i in seq:
                SETS[i][1](session)
            model = fold(copy.deepcopy(base), session)

            def f():
                e = engine(base)
                for i in seq:
                    e.execute(SETS[i][0])
                got = view(e.executor.session_config.get())
                glob = view(e.config.get())
                e.close()
                return got, glob
            rec.transitions += len(seq)
            exp = (view(model), view(base))
            rec.expect("set %s" % "; ".join(SETS[i][0] for i in seq), exp, attempt(f), {"engine": base, "sets": [SETS[i][0] for i in seq]}, outcome=len(seq),
                       sample={"sets": [SETS[i][0] for i in seq], "settings": exp[0]} if sum(seq) % 17 == 3 else None)
