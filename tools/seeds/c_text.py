CO = "syncanysql/compiler.py"
PA = "syncanysql/parser.py"

seed("c09-backtick-semicolon", "C09", "a script with a ; inside a backtick quoted name or path",
     "the ; inside backticks ends the statement", '''
e = engine()
e.execute("insert into `o` select 1 as id, 2 as `a;b`; insert into `o` select 2 as id, 3 as `a;b`")
got = rows(e, "o")
assert got == [{"id": 1, "a;b": 2}, {"id": 2, "a;b": 3}], got
''', (PA, '''            if self.sql[self.index] in ('`', '"', "'"):
                self.skip_escape(''', '''            if self.sql[self.index] in ('"', "'"):
                self.skip_escape('''))

seed("c10-escape-tail", "C10", "a string literal with a non-latin character, an escape before it and more text after it",
     "the text before the first non-latin character is repeated before the next one", '''
e = engine()
r = query(e, "select 'a\\\\n中b中' as v")
assert r == [{"v": "a\\n中b中"}], r
''', (CO, '''                            escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
                            escape_chars = []
                        escape_values.append(c)''', '''                            escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
                        escape_values.append(c)'''))

QT = "syncanysql/taskers/query.py"
FAIL = '''
import syncanysql
from syncanysql import register_calculater, Calculater

class Boom(Calculater):
    kind, at = None, 0
    def calculate(self, v=None, *args):
        if Boom.kind is not None and v == Boom.at:
            raise Boom.kind("boom")
        return v
register_calculater("boom")(Boom)
e = engine()
put(e, "t", [{"id": i, "a": i % 2} for i in range(4)])
'''

seed("c11-terminate-swallowed", "C11", "SystemError (what terminate raises) inside a query that is not the first statement's last",
     "a terminated query counts as finished and the next statements of the script run", FAIL + '''
Boom.kind, Boom.at = SystemError, 2
failed = False
try:
    e.execute("insert into o select id, boom(id) as b from t; insert into later select id from t")
except SystemError:
    failed = True
assert failed and not rows(e, "later"), rows(e, "later")
''', (QT, '''            tasker.close(False, "signal terminaled")
            get_logger().error("signal exited")
            raise e''', '''            tasker.close(False, "signal terminaled")
            get_logger().error("signal exited")'''))

seed("c11-temporaries-on-failure", "C11", "a failure in a query reading a derived table, in a script with further statements",
     "the temporary table of the derived table stays in the in-memory database", FAIL + '''
Boom.kind, Boom.at = ValueError, 2
try:
    e.execute("insert into o select boom(q.id) as b from (select id from t) q; insert into later select id from t")
except ValueError:
    pass
else:
    assert False
left = [k for f in e.manager.database_manager.factorys.values() for d in getattr(f, "drivers", []) for k, v in d.instance.items() if "__" in k and v]
assert not left, left
''', (QT, '''        except Exception as e:
            self.check_free_temporary_memory_collection(executor, tasker)
            tasker.close(False, "Error: " + repr(e), traceback.format_exc())''', '''        except Exception as e:
            tasker.close(False, "Error: " + repr(e), traceback.format_exc())'''), (QT, '''        finally:
            names = self.get_temporary_memory_collections()
            if names:
                executor.clear_temporary_memory_collection(names)''', '''        finally:
            names = [] if executor.runners else self.get_temporary_memory_collections()
            if names:
                executor.clear_temporary_memory_collection(names)'''))

seed("c12-union-name-shared", "C12", "the same UNION twice in one statement",
     "the temporary collection of a union is named by its text, so two equal unions of a statement write into one collection", '''
e = engine()
put(e, "u", [{"id": 1, "k": 1}, {"id": 2, "k": 2}])
r = query(e, "select x.k as k from (select k from u union all select id from u) x union all select y.k from (select k from u union all select id from u) y")
assert sorted(x["k"] for x in r) == [1, 1, 1, 1, 2, 2, 2, 2], r
''', (CO, '''        query_name = "__unionquery_" + str(uuid.uuid1().int)
        output_primary_key, output_type''', '''        query_name = "__unionquery_" + hashlib.md5(self.to_sql(expression).encode("utf-8")).hexdigest()
        output_primary_key, output_type'''))

seed("c12-union-limit-shared", "C12", "a select with its own LIMIT in front of another select of a union",
     "the selects of a union share their arguments, so the LIMIT of one select is also applied to the next ones", '''
e = engine()
put(e, "u", [{"id": i, "k": i} for i in range(5)])
r = query(e, "(select k from u order by k limit 1) union all select id from u")
assert len(r) == 6, r
''', (CO, '''            subquery_name = "__unionquery_" + str(uuid.uuid1().int)
            subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
            subquery_config = self.compile_query(select_expression, subquery_arguments)''', '''            subquery_name = "__unionquery_" + str(uuid.uuid1().int)
            subquery_arguments = arguments
            subquery_config = self.compile_query(select_expression, subquery_arguments)'''))

seed("c13-child-assigns-parent", "C13", "a child context that assigns a variable its parent has",
     "the assignment of an expression inside rows goes to the session that already has the variable, also to a parent", '''
e = engine()
put(e, "t", [{"id": 1}])
e.execute("set @a = 1")
c = e.context()
c.execute("insert into o select @a := @a + 1 as b from t")
assert c.get_variable("a") == 2 and e.get_variable("a") == 1, (c.get_variable("a"), e.get_variable("a"))
''', ("syncanysql/calculaters/env_variable_calculater.py", '''            current_executor.env_variables[key] = value''', '''            env_variables = current_executor.env_variables
            while key not in env_variables and env_variables.parent is not None and key in env_variables.parent:
                env_variables = env_variables.parent
            env_variables[key] = value'''))

seed("c13-into-falsy", "C13", "SELECT INTO of a 0 or an empty string",
     "a selected value that is falsy is stored as NULL", '''
e = engine()
put(e, "t", [{"id": 1, "v": 0}])
e.execute("set @a = 3")
e.execute("select v into @a from t")
assert e.get_variable("a") == 0, e.get_variable("a")
''', ("syncanysql/taskers/into.py", '''                    value = datas[0][schema_keys[0]] if schema_keys[0] in datas[0] else None''',
                                    '''                    value = datas[0].get(schema_keys[0]) or None'''))

seed("c14-file-settings-leak", "C14", "an EXECUTEd .sql file that changes a setting or uses a module",
     "the file runs with the settings of the session that executes it, so its changes stay after it", '''
import datetime, os, tempfile
e = engine()
d = tempfile.mkdtemp()
p = os.path.join(d, "x.sql")
with open(p, "w") as fp:
    fp.write("set @config.date_format = '%Y'; insert into o select 1 as a")
try:
    e.set_variable("d", datetime.date(2021, 3, 4))
    e.execute("execute `%s`" % p)
    e.execute("insert into r select '${@d}' as d")
    assert rows(e, "r") == [{"d": "2021-03-04"}], rows(e, "r")
finally:
    os.remove(p); os.rmdir(d)
''', ("syncanysql/taskers/execute.py", '''                    self.executor = Executor(manager, session_config.session(), executor)

                get_logger().info''', '''                    self.executor = Executor(manager, session_config, executor)

                get_logger().info'''))

seed("c14-context-copies-variables", "C14", "a root variable assigned after a context was created",
     "a context takes over the variables of its parent when it is created and does not see later changes", '''
e = engine()
e.set_variable("a", 1)
c = e.context()
c.execute("insert into r select @a as a")
e.set_variable("a", 2)
c.execute("insert into r select @a as a")
assert rows(e, "r") == [{"a": 1}, {"a": 2}], rows(e, "r")
''', ("syncanysql/executor.py", '''        self.env_variables = EnvVariables(parent_executor.env_variables if parent_executor
                                          else self.global_env_variables)
''', '''        self.env_variables = EnvVariables(parent_executor.env_variables.parent if parent_executor
                                          else self.global_env_variables,
                                          parent_executor.env_variables if parent_executor else {})
'''))

seed("c15-current-session-shared", "C15", "a thread switch while a query of the other thread reads variables",
     "the current session is one for the process instead of one per thread", '''
import threading
e = engine()
put(e, "t", [{"id": 1}, {"id": 2}])
a, b = e.context(), e.context()
inside, go = [threading.Event(), threading.Event()], [threading.Event(), threading.Event()]
def wait(v, n):
    inside[n].set()
    assert go[n].wait(20)
    return v
e.use("wait", wait)
a.set_variable("x", "a")
b.set_variable("x", "b")
t = threading.Thread(target=lambda: a.execute("insert into r select wait(id, 0) as i, @x as x from t"))
t2 = threading.Thread(target=lambda: b.execute("insert into r2 select wait(id, 1) as i, @x as x from t where id = 1"))
t.start()
assert inside[0].wait(20)
t2.start()
assert inside[1].wait(20)
go[0].set()
t.join()
go[1].set()
t2.join()
assert [r["x"] for r in rows(e, "r")] == ["a", "a"], rows(e, "r")
assert [r["x"] for r in rows(e, "r2")] == ["b"], rows(e, "r2")
''', ("syncanysql/executor.py", '''class Executor(object):
    _thread_local = threading.local()
''', '''class ExecutorState(object):
    current_executor = None


class Executor(object):
    _thread_local = ExecutorState()
'''))

seed("c15-query-table-shared", "C15", "two threads that run correlated subqueries at the same moment",
     "the rows of a correlated subquery are kept under a name that other threads also use", '''
import threading
e = engine()
put(e, "t", [{"id": 1}, {"id": 2}])
put(e, "u", [{"id": 1, "k": 1}, {"id": 2, "k": 2}])
from syncanysql.taskers.query import QueryTasker
from syncanysql.executor import Executor
a, b = e.context(), e.context()
inside, go, hit = threading.Event(), threading.Event(), []
real = Executor.execute
def execute(self):
    r = real(self)
    if threading.current_thread().name == "a" and self.parent_executor is a.executor and not hit:
        hit.append(1)
        inside.set()
        assert go.wait(20)
    return r
Executor.execute = execute
sql = "insert into %s select t.id, (select max(u.id) from u u where u.k = t.id) as m from t t"
t = threading.Thread(target=lambda: a.execute(sql % "r"), name="a")
t.start()
assert inside.wait(20)
b.execute(sql % "r2")
go.set()
t.join()
assert [r["m"] for r in rows(e, "r")] == [1, 2], rows(e, "r")
assert [r["m"] for r in rows(e, "r2")] == [1, 2], rows(e, "r2")
''', ("syncanysql/calculaters/query_tasker_calculater.py", '''            config["output"] = "&.--.__queryTasker_" + str(id(executor)) + "::"''',
      '''            config["output"] = "&.--.__queryTasker_" + str(len(executor.runners)) + "::"'''))
