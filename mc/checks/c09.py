"""C09  A script is split into exactly its statements: quotes, backticks and comments never hide, split or swallow one.

Part 1 enumerates every token sequence up to the bound through the real splitter and compares with a character state machine written from the rules;
part 2 runs scripts built from statements with fragments between their words through the engine; part 3 decides CLI completeness on the same sequences.
"""
import itertools
import os

from eng import Engine, Err
from syncanysql.parser import SqlParser, FileParser
from syncanysql.prompt import CliPrompt

LEVEL = "model_checking"
TOKENS = ["a", " ", "\n", ";", "'", '"', "`", "\\", "#", "--", "/*", "*/", "/"]
DEPTH = {"quick": 5, "thorough": 6}
BOUND = {t: "every sequence of <= %d of the 13 tokens a, space, newline, ;, ', \", `, \\, #, --, /*, */, / after the prefix 'select' and alone (statement texts, order, line numbers, "
            "refusal of unterminated quotes and comments; CLI completeness on the same); %d scripts of three INSERTs with every choice of 12 fragments at 3 places x 10 literals "
            "executed from a string and from a file" % (DEPTH[t], 12 * 12 * 12 * 10) for t in DEPTH}
ASSUME = ["-- and # start a comment anywhere outside quotes; backslash escapes inside ' and \" but not inside `; a statement starts at its first letter",
          "refusing a whole script with an unterminated quote or comment (EOFError) is the documented outcome"]


def reference(s):
    """-> list of (line, text) or None when a quote or block comment is not closed; second value: is there a ; outside quotes and comments"""
    out, i, line, start, complete = [], 0, 1, None, False
    n = len(s)

    def lines(a, b):
        return s.count("\n", a, b)

    while i < n:
        c = s[i]
        if c in "'\"`":
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" and c != "`" else 1
            if j >= n:
                return None, complete
            line += lines(i, j + 1)
            i = j + 1
        elif c == "#" or s.startswith("--", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                return None, complete
            line += lines(i, j + 2)
            i = j + 2
        elif c == ";":
            complete = True
            if start is not None:
                out.append((start[0], s[start[1]:i]))
            start = None
            i += 1
        else:
            if c == "\n":
                line += 1
            elif start is None and c.isalpha():
                start = (line, i)
            i += 1
    if start is not None:
        out.append((start[0], s[start[1]:]))
    return out, complete


FRAGS = ["", " ", "\n", "-- it's\n", "# say \"hi `\n", "/* ; */", "/* it's; */", "-- a; b\n", "#;\n", "/*/ ; ' */", "/***/", "/* -- */\n--\n"]
LITS = [("'x'", "x"), ("'a;b'", "a;b"), ("'it''s'", "it's"), ("'it\\'s;'", "it's;"), ('"--;"', "--;"), ("'#;'", "#;"), ("'/*;'", "/*;"), ("'\\\\'", "\\"),
        ("'`;'", "`;"), ('"it\'"', "it'")]


def units(tier):
    return [("split", DEPTH[tier], p, a) for p in ("select ", "") for a in range(len(TOKENS))] + [("run", 0, f, 0) for f in range(len(FRAGS))]


def explore(unit, rec):
    kind, depth, p, a = unit
    if kind == "split":
        return split(p, a, depth, rec)
    e = Engine()
    path = os.path.join(os.environ["MC_SCRATCH"], "c09_%s_%s.sql" % (p, os.getpid()))
    for f2, f3 in itertools.product(FRAGS, FRAGS):
        for lit, val in LITS:
            script = "insert into t (id, v) values (1, 'one');%sinsert into t (id, v)%s values (2, %s)%s;insert into t (id, v) values (3, 'three')" % (FRAGS[p], f2, lit, f3)
            want = [(1, "one"), (2, val), (3, "three")]
            for way in ("string", "file"):
                e.clear()
                if way == "string":
                    err = e.run(script)
                else:
                    with open(path, "w") as fp:
                        fp.write(script)
                    err = e.run("execute `%s`" % path)
                got = err if err is not None else [(r.get("id"), r.get("v")) for r in e.rows("t")]
                rec.transitions += 3
                rec.state(way, script)
                if got != want:
                    rec.bad("run %s %r" % (way, script), "expected %r, got %r" % (want, got), {"script": script, "way": way})
                else:
                    rec.ok(val, {"script": script})
    e.close()


def split(prefix, a, depth, rec):
    cli = CliPrompt(None, None, None)
    for n in range(0, depth):
        for tail in itertools.product(TOKENS, repeat=n):
            s = prefix + TOKENS[a] + "".join(tail)
            want, complete = reference(s)
            rec.transitions += len(s)
            rec.states.add(hash(s))
            try:
                got = [(x.lineno, str(x)) for x in SqlParser(s).split()]
            except EOFError:
                got = None
            if got != want:
                rec.bad("split %r" % s, "expected %r, got %r" % (want, got), {"script": s})
            more = cli.check_complete(s)
            t = s.strip()
            if t and t[0] not in "!%":
                wmore = not reference(t)[1]
                if more != wmore:
                    rec.bad("cli %r" % s, "the CLI %s for more lines" % ("asks" if more else "does not ask"), {"text": s})
            rec.evaluations += 1
            if want is not None and len(want) < 6:
                rec.outcomes.add(hash(str([x[0] for x in want]) + str(len(want))))
    rec.samples.append({"script": s, "statements": repr(want)})
