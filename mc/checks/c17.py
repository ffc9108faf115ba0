"""C17  The command line runs its script as the engine would: every statement once, in order, in every way of being given one.

Each case is one run of syncanysql.main.main() in a forked process with its own directory, home, arguments and standard input; files written, rows printed and the exit status are
compared with the model.
"""
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time

LEVEL = "model_checking"
BOUND = {
    "quick": "every script of <=3 statements over {write a row to a JSON file, print, assign a variable, fail when compiled, fail when run, comment holding ; and a quote} x 12 ways of giving it (file with .sql, "
             ".sqlx, .SQL names, with and without a terminal; pipe with and without arguments and quotes; interactive one statement per line, all on one line, broken over lines; split at every point between "
             "initialising scripts of the configuration and the main script; nested EXECUTE); 25 argument values x 4 forms of use, 6 names x 2 values x 2 forms; 10 ways of giving no runnable script; interactive sessions of <=3 inputs over "
             "8 kinds (statements, failing ones, Ctrl-C, blank, cd, unfinished)",
    "thorough": "as quick with scripts of <=4 statements and interactive sessions of <=4 inputs"}
ASSUME = ["SELECT INTO is used to assign: a constant SET takes effect when the statement is read (known)", "signals are not sent", "the terminal of interactive mode is a stand-in that delivers the keys "
          "typed; standard input is a stand-in that reports whether it is a terminal"]

KINDS = ("W", "S", "V", "C", "X", "K")


def statement(kind, k):
    return {"W": "insert into `o.json` select %d as id, @v as v" % k,
            "S": "select %d as z" % k,
            "V": "select %d as a into @v" % (k * 10),
            "X": "select * from `bad.json`",
            "C": "select nofn(%d) as x" % k,
            "K": "-- it's ; a comment %d\nselect /* ; \" */ %d as z" % (k, k)}[kind]


def model(kinds, state=None, ids=None):
    """-> (rows of o.json, printed numbers, failed?) of one run of a whole script; state carries the variable."""
    state = {"v": None} if state is None else state
    ids = list(ids or range(1, len(kinds) + 1))
    files, printed = [], []
    if "C" in kinds:
        return files, printed, True
    for kind, k in zip(kinds, ids):
        if kind == "W":
            files.append((k, state["v"]))
        elif kind in ("S", "K"):
            printed.append(k)
        elif kind == "V":
            state["v"] = k * 10
        elif kind == "X":
            return files, printed, True
    return files, printed, False


class Stdin(io.StringIO):
    def __init__(self, text, tty):
        io.StringIO.__init__(self, text)
        self.tty = tty

    def isatty(self):
        return self.tty


@contextlib.contextmanager
def keys(typed):
    if typed is None:
        yield
        return
    from prompt_toolkit.application import create_app_session
    from prompt_toolkit.input import create_pipe_input
    from prompt_toolkit.output import DummyOutput
    with create_pipe_input() as inp:
        inp.send_text(typed)
        with create_app_session(input=inp, output=DummyOutput()):
            yield


def cli(files, argv, stdin="", tty=False, typed=None, env=None, uid=None, timeout=20):
    """Runs the command in a forked process -> {rows, printed, code, out}"""
    base = tempfile.mkdtemp(prefix="mc17-", dir="/tmp" if uid else os.environ.get("MC_SCRATCH") or None)
    home, cwd = os.path.join(base, "home"), os.path.join(base, "cwd")
    try:
        os.mkdir(home)
        os.mkdir(cwd)
        os.mkdir(os.path.join(home, ".syncany"))
        for name, text in dict({"bad.json": '[{"id": 1'}, **files).items():
            path = os.path.join(base, name) if name.startswith(("home/", "cwd/")) else os.path.join(cwd, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fp:
                fp.write(text)
            if uid:
                os.chmod(path, 0o444)
        if uid:
            for d in (base, home, cwd, os.path.join(home, ".syncany")):
                os.chmod(d, 0o777)
        outname = os.path.join(base, "out")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                out = os.open(outname, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o666)
                null = os.open(os.devnull, os.O_RDONLY)
                os.dup2(null, 0)
                os.dup2(out, 1)
                os.dup2(os.open(os.path.join(base, "err"), os.O_CREAT | os.O_WRONLY, 0o666), 2)
                signal.alarm(0)
                sys.stdout = os.fdopen(1, "w")
                sys.stderr = os.fdopen(2, "w")
                if uid:
                    os.setgid(uid)
                    os.setuid(uid)
                os.chdir(cwd)
                os.environ.clear()
                os.environ.update({"HOME": home, "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "COLUMNS": "100", "TERM": "dumb", "TZ": "UTC"})
                os.environ.update(env or {})
                sys.argv = ["syncany-sql"] + list(argv)
                sys.stdin = Stdin(stdin, tty)
                import builtins
                builtins.exit = sys.exit
                from syncanysql.main import main
                try:
                    with keys(typed):
                        main()
                    code = 0
                except SystemExit as exc:
                    code = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
                sys.stdout.flush()
            except BaseException as exc:
                code = 98
                sys.stderr.write(repr(exc))
                sys.stderr.flush()
            finally:
                os._exit(code)
        end = time.time() + timeout
        code = None
        while time.time() < end:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                code = os.waitstatus_to_exitcode(status)
                break
            time.sleep(0.003)
        if code is None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            code = "timeout"
        out = open(outname).read() if os.path.exists(outname) else ""
        rows = None
        if os.path.exists(os.path.join(cwd, "o.json")):
            try:
                rows = [(r.get("id"), r.get("v")) for r in json.load(open(os.path.join(cwd, "o.json")))]
            except ValueError:
                rows = "unreadable"
        return {"rows": rows or [], "printed": [int(x) for x in re.findall(r"^│\s*(\d+)\s*│$", out, re.M)], "code": code, "out": out}
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- ways of giving a script
WAYS = ("sql", "sqlx", "SQL", "tty-sql", "pipe", "pipe-arg", "pipe-quoted", "pipe-file-arg", "each-line", "one-line", "broken", "init", "nested", "init-home")


def text_of(kinds):
    return ";\n".join(statement(c, i + 1) for i, c in enumerate(kinds)) + ";\n"


def split_run(first, second):
    """Two scripts run one after the other in one session: the second is not reached when the first fails."""
    state = {"v": None}
    f, p, bad = model(first, state)
    if bad:
        return f, p, True
    f2, p2, bad = model(second, state, range(len(first) + 1, len(first) + len(second) + 1))
    return f + f2, p + p2, bad


def run_way(way, kinds, at=0):
    """-> (result, (files, printed, failed))"""
    text = text_of(kinds)
    if way in ("sql", "sqlx", "SQL", "tty-sql"):
        name = "f." + way.replace("tty-", "")
        return cli({name: text}, [name], tty=way.startswith("tty")), model(kinds)
    if way == "pipe":
        return cli({}, [], stdin=text), model(kinds)
    if way == "pipe-arg":
        return cli({}, ["--x=1"], stdin=text), model(kinds)
    if way == "pipe-file-arg":
        # a script named by an argument wins over standard input
        return cli({"f.sql": text}, ["f.sql"], stdin="select 77 as z;"), model(kinds)
    if way == "pipe-quoted":
        q = "'" if at else '"'
        return cli({}, [], stdin=q + text.strip() + q + "\n"), model(kinds)
    if way in ("each-line", "broken"):
        state, files, printed, typed = {"v": None}, [], [], ""
        for i, c in enumerate(kinds):
            f, p, bad = model([c], state, [i + 1])
            files, printed = files + f, printed + p
            line = statement(c, i + 1) + ";"
            if way == "broken":
                line = line.replace(" ", "\n", 3) if c != "K" else line
            typed += line.replace("\n", "\r") + "\r"
        return cli({}, [], tty=True, typed=typed + "exit\r"), (files, printed, False)
    if way == "one-line":
        typed = "".join((statement(c, i + 1).split("\n")[-1]) + "; " for i, c in enumerate(kinds))
        files, printed, bad = model(kinds)
        return cli({}, [], tty=True, typed=typed + "\r" + "exit\r"), (files, printed, False)
    first, second = kinds[:at], kinds[at:]
    texts = (";\n".join(statement(c, i + 1) for i, c in enumerate(first)) + ";", ";\n".join(statement(c, at + i + 1) for i, c in enumerate(second)) + ";")
    if way == "init":
        return cli({"a.sql": texts[0], "f.sql": texts[1], "config.json": json.dumps({"executes": ["a.sql"]})}, ["f.sql"]), split_run(first, second)
    if way == "init-home":
        return cli({"home/.syncany/a.sql": texts[0], "b.sql": texts[1], "home/.syncany/config.yaml": "executes:\n  - a.sql\n", "config.json": json.dumps({"executes": "b.sql"})},
                   [], stdin="select 9 as z"), (lambda r: r if r[2] else (r[0], r[1] + [9], False))(split_run(first, second))
    if way == "nested":
        # the statements after position `at` are in a script run by EXECUTE; all of it is compiled before anything runs
        call = "execute %s;\nselect 9 as z;" % ("`g.sql`", "'g.sql'", '"g.sql"')[len(kinds) % 3]
        res = cli({"g.sql": texts[1], "f.sql": texts[0] + "\n" + call if at else call}, ["f.sql"])
        files, printed, bad = model(kinds)
        return res, (files, printed + ([] if bad else [9]), bad)
    raise ValueError(way)


# ---------------------------------------------------------------------------------------------- arguments
VALUES = ["5", "", "x", "a b", "x=y", "a=b=c", "=", '"q r"', "'q r'", '"', "'x", "\"x=1\"", "1 and 1", "é", "--y", None, "Ann", "A=b C", "0", "12", "null", "-5", "@a", "${b}", "it's"]
NAMES = ["a", "Ab", "B", "a_b", "a1", "X_2y"]


def arg_cases():
    for v in VALUES:
        arg = "--@a" if v is None else "--@a=" + v
        exp = True if v is None else v
        if isinstance(exp, str) and len(exp) >= 2 and exp[0] == exp[-1] and exp[0] in "'\"":
            exp = exp[1:-1]
        for form in range(4):
            yield arg, exp, form
    for name in NAMES:
        for value in ("v", "V w"):
            yield "--@%s=%s" % (name, value), value, 4
            yield "--%s=%s" % (name, value), value, 5


def arg_run(arg, form):
    if form == 0:
        return cli({"f.sql": "insert into `o.json` select 1 as id, @a as v"}, ["f.sql", arg])
    if form == 1:
        return cli({"f.sql": "insert into `o.json` select 1 as id, @a as v"}, [arg, "f.sql"][::-1] + ["--@b=7"])
    if form == 2:
        return cli({}, [arg], stdin="insert into `o.json` select 1 as id, @a as v")
    name = arg[2:].split("=")[0]
    if form == 4:
        return cli({"f.sql": "insert into `o.json` select 1 as id, @%s as v" % name[1:]}, ["--z=1", "f.sql"][::-1] + [arg])
    if form == 5:
        return cli({"f.sql": "insert into `o.json` select 1 as id, '${%s}' as v" % name}, ["f.sql", arg, "--z=Z"])
    return cli({"f.sql": "insert into `o.json` select 1 as id, '${a}' as v"}, ["f.sql", arg.replace("@", "", 1)])


# ---------------------------------------------------------------------------------------------- nothing to run
def nothing():
    return [("missing file", lambda: cli({}, ["none.sql"]), 1), ("missing file on a terminal", lambda: cli({}, ["none.sql"], tty=True), 1),
            ("unknown extension on a terminal", lambda: cli({"f.txt": "select 1 as z"}, ["f.txt"], tty=True), 2), ("empty pipe", lambda: cli({}, [], stdin=""), 0),
            ("blank pipe", lambda: cli({}, [], stdin=" \n"), 0), ("empty file", lambda: cli({"f.sql": ""}, ["f.sql"]), 0), ("comments only", lambda: cli({"f.sql": "-- select 1;\n/* ; */"}, ["f.sql"]), 0),
            ("missing init script", lambda: cli({"config.json": '{"executes": ["no.sql"]}', "f.sql": "insert into `o.json` select 1 as id"}, ["f.sql"]), 1),
            ("end of input", lambda: cli({}, [], tty=True, typed="\x04"), 0), ("exit", lambda: cli({}, [], tty=True, typed="exit\rselect 1 as z;\r\x04"), 0)]


# ---------------------------------------------------------------------------------------------- interactive sessions
INPUTS = ("W;", "W;S;", "S;C;", "X;S;", "^C", "blank", "cd", "exit")


def session(inputs):
    state, files, printed, typed, k, ended = {"v": None}, [], [], "", 0, False
    for i in inputs:
        if i == "^C":
            k += 1
            typed += "select %d as z\x03" % k
            continue
        if i == "blank":
            typed += "  \r"
            continue
        if i == "cd":
            typed += "%cd ../cwd\r"
            continue
        if i == "exit":
            typed += "EXIT\r"
            ended = True
            continue
        ks = i.strip(";").split(";")
        ids = [k + 1 + j for j in range(len(ks))]
        k += len(ks)
        if not ended:
            f, p, _ = model(ks, state, ids)
            files, printed = files + f, printed + p
        typed += "".join(statement(c, j) + ";" for c, j in zip(ks, ids)) + "\r"
    return cli({}, [], tty=True, typed=typed + "\x04"), (files, printed, False)


def units(tier):
    n = 3 if tier == "quick" else 4
    scripts = [s for r in range(1, n + 1) for s in itertools.product(KINDS, repeat=r)]
    out = [("way", w, "".join(first)) for w in WAYS for first in [s for s in itertools.product(KINDS, repeat=1)]]
    out += [("args", None, i) for i in range(6)] + [("none", None, None), ("readonly", None, None)] + [("session", i, None) for i in INPUTS]
    return [u + (tier,) for u in out]


def explore(unit, rec):
    import syncanysql.main                      # noqa: loaded once, before forking
    kind, arg, extra, tier = unit
    n = 3 if tier == "quick" else 4

    def judge(key, res, exp, case):
        rec.transitions += 1
        files, printed, failed = exp
        got = (res["rows"], res["printed"], res["code"])
        rec.expect(key, (files, printed, 1 if failed else 0), got, case, outcome=(len(files), len(printed), failed),
                   sample={"case": key, "rows": files, "printed": printed, "exit": res["code"]} if rec.transitions % 23 == 5 else None)

    if kind == "way":
        for r in range(n):
            for rest in itertools.product(KINDS, repeat=r):
                kinds = list(extra) + list(rest)
                if arg in ("init", "init-home"):
                    ats = range(1, len(kinds))
                elif arg == "nested":
                    ats = range(0, len(kinds))
                else:
                    ats = (r % 2,)
                if tier == "quick" and len(kinds) == 3 and arg not in ("sql", "pipe", "each-line"):
                    # the longest scripts in the other ways: those whose kinds differ
                    if len(set(kinds)) < 3:
                        continue
                for at in ats:
                    if not rec.state(arg, tuple(kinds), at):
                        continue
                    res, exp = run_way(arg, kinds, at)
                    judge("%s %s%s" % (arg, "".join(kinds), " at %d" % at if arg in ("init", "nested", "init-home") else ""), res, exp,
                          {"way": arg, "at": at, "script": text_of(kinds), "out": res["out"][-300:]})
    elif kind == "args":
        for a, exp, form in arg_cases():
            if form != extra or (form == 3 and (exp is True or "'" in exp)):
                continue
            if rec.state(a, form):
                res = arg_run(a, form)
                judge("argument %s form %d" % (a, form), res, ([(1, exp)], [], False), {"argument": a, "form": form, "out": res["out"][-300:]})
    elif kind == "none":
        for name, f, code in nothing():
            if rec.state(name):
                res = f()
                rec.transitions += 1
                rec.expect(name, ([], [], code), (res["rows"], res["printed"], res["code"]), {"case": name, "out": res["out"][-300:]}, outcome=code)
    elif kind == "readonly":
        for kinds in itertools.product("WSK", repeat=2):
            if rec.state(kinds):
                res = cli({"f.sql": text_of(kinds)}, ["f.sql"], uid=65534)
                judge("read-only script, unprivileged, %s" % "".join(kinds), res, model(kinds), {"script": text_of(kinds), "out": res["out"][-300:]})
    else:
        for r in range(n):
            for rest in itertools.product(INPUTS, repeat=r):
                inputs = (arg,) + rest
                if rec.state(inputs):
                    res, exp = session(inputs)
                    judge("session %s" % " ".join(inputs), res, exp, {"inputs": inputs, "out": res["out"][-300:]})
