CO = "syncanysql/compiler.py"
QT = "syncanysql/taskers/query.py"
CF = "syncanysql/config.py"
MA = "syncanysql/main.py"
FILES = '''
import json, subprocess
def write(name, text):
    os.makedirs(os.path.dirname(os.path.abspath(name)), exist_ok=True)
    with open(name, "w") as f:
        f.write(text if isinstance(text, str) else json.dumps(text))
def cli(*args, stdin=None):
    env = dict(os.environ, PYTHONPATH=REPO, HOME=SCRATCH, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "syncanysql.main"] + list(args), input=stdin if stdin is not None else "", text=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    return p.returncode, p.stdout
'''

seed("c16-having-limit", "C16", "HAVING on a query that is not grouped, with a LIMIT, whose first rows do not satisfy the condition",
     "LIMIT cuts the rows before HAVING is applied", '''
e = engine()
put(e, "t", [{"id": i, "v": i} for i in range(6)])
got = query(e, "select id, v from t having v >= 3 limit 2")
assert [r["v"] for r in got] == [3, 4], got
''', (CO, '''            if config["predicate"] or config["intercept"] or (config.get("aggregate") and''', '''            if config["predicate"] or (config.get("aggregate") and'''))

seed("c16-having-unknown-right", "C16", "a HAVING condition comparing a result column with a column that is not selected",
     "the condition is accepted and keeps no row instead of being refused", '''
e = engine()
put(e, "t", [{"id": i, "v": i, "w": 1} for i in range(6)])
failed = False
try:
    got = query(e, "select v, count(*) as n from t group by v having n >= w")
except Exception:
    failed = True
assert failed, got
''', (CO, '''                right_column = self.parse_column(right_expression, config, arguments)
                if isinstance(config["schema"], dict) and right_column["column_name"] not in config["schema"]:
                    raise SyncanySqlCompileException('unknown having condition column''', '''                right_column = self.parse_column(right_expression, config, arguments)
                if isinstance(config["schema"], str) and right_column["column_name"] not in config["schema"]:
                    raise SyncanySqlCompileException('unknown having condition column'''))

seed("c17-pipe-failure-status", "C17", "a script piped to the command line of which a statement fails while it runs",
     "the command exits with status 0 although a statement failed", FILES + '''
write("bad.json", "{")
code, out = cli(stdin="insert into `o.json` select 1 as id;\\nselect * from `bad.json`;\\n")
assert code == 1, (code, out)
''', (MA, '''                        get_logger().info("execute pipe sql finish with Exception %s:%s %.2fms", e.__class__.__name__, e,
                                          (time.time() - start_time) * 1000)
                        raise e''', '''                        get_logger().error("execute pipe sql finish with Exception %s:%s %.2fms", e.__class__.__name__, e,
                                           (time.time() - start_time) * 1000)'''))

seed("c17-init-scripts-together", "C17", "two initialising scripts, the second using ${} text of a variable the first assigns by a query",
     "all initialising scripts are read before the first one runs", FILES + '''
write(".syncany/config.json", {"executes": ["a.sql", "b.sql"]})
write(".syncany/a.sql", "select 'x.json' as name into @name")
write(".syncany/b.sql", "insert into `${@name}` select 7 as id")
write("m.sql", "select 1 as z")
code, out = cli("m.sql")
assert code == 0 and os.path.exists("x.json") and json.load(open("x.json")) == [{"id": 7}], (code, out, os.listdir("."))
''', (MA, '''                        executor.run("init " + init_execute_file, file_parser.load())
                        executor.execute()
''', '''                        executor.run("init " + init_execute_file, file_parser.load())
                    executor.execute()
'''))

seed("c17-argument-case", "C17", "a --argument whose name has capitals",
     "the argument is stored under its lower-case name and ${Name} finds nothing", FILES + '''
write("m.sql", "insert into `o.json` select '${Name}' as id, '${other}' as o")
code, out = cli("m.sql", "--Name=Ann", "--other=b")
assert code == 0 and json.load(open("o.json")) == [{"id": "Ann", "o": "b"}], (code, out, open("o.json").read())
''', ("syncanysql/executor.py", '''            if arg[:2] != "--":
                continue
''', '''            if arg[:2] != "--" or arg != arg.lower():
                continue
'''))

seed("c18-database-replaced", "C18", "two layers that give different attributes of one database",
     "the merged database is not put back: the attributes of the later layer are lost", FILES + '''
write(".syncany/config.json", {"databases": [{"name": "d", "driver": "json", "path": "pa"}]})
write("config.json", {"databases": [{"name": "d", "path": "pb"}]})
write("pa/t.json", [{"id": 4}])
write("pb/t.json", [{"id": 5}])
e = engine()
got = query(e, "select id from d.`t.json`")
assert got == [{"id": 5}], got
''', (CF, '''                            vs[d["name"]].update(d)
''', '''                            vs[d["name"]] = dict(vs[d["name"]], **d)
'''))

seed("c18-init-script-lookup", "C18", "an initialising script of the same name in the home and in the working directory",
     "the script of the home is run instead of the one of the working directory", FILES + '''
write(".syncany/i.sql", "insert into r select 1 as id")
write("config.json", {"executes": ["work/i.sql", "i.sql"]})
write("sub/x", "")
write(".syncany/work/i.sql", "insert into r select 2 as id")
write("work/i.sql", "insert into r select 3 as id")
write("i.sql", "insert into r select 4 as id")
e = engine()
e.execute("set @z = 1")
got = [r["id"] for r in rows(e, "r")]
assert got == [3, 4], got
''', (CF, '''            if os.path.exists(init_execute_file):
                init_execute_files.append(init_execute_file)
            elif os.path.exists(os.path.join(home_config_path, init_execute_file)):
                init_execute_files.append(os.path.join(home_config_path, init_execute_file))
''', '''            if os.path.exists(os.path.join(home_config_path, init_execute_file)):
                init_execute_files.append(os.path.join(home_config_path, init_execute_file))
            elif os.path.exists(init_execute_file):
                init_execute_files.append(init_execute_file)
'''))

seed("c18-set-database-keeps", "C18", "a database SET twice in one session, the second time with fewer attributes",
     "attributes of the first SET stay", FILES + '''
e = engine()
write("pa/t.json", [{"id": 1}])
write("t.json", [{"id": 2}])
e.execute("""set @config.databases.d = '{"driver": "json", "path": "pa"}'""")
e.execute("""set @config.databases.d = '{"driver": "json"}'""")
got = query(e, "select id from d.`t.json`")
assert got == [{"id": 2}], got
''', (CF, '''                        set_database.clear()
                        set_database["name"] = key[1]
''', '''                        set_database["name"] = key[1]
'''))

seed("c19-url-not-unquoted", "C19", "a file:// path holding %20 or +",
     "the escapes stay in the name: another file, or none, is read", FILES + '''
write("a b.log", "1,x")
write("a+b.log", "3,z")
e = engine()
got = query(e, "select seg0 as i, seg1 as v from `file://" + os.getcwd() + "/a%20b.log?sep=,`")
assert got == [{"i": "1", "v": "x"}], got
''', ("syncanysql/compiler.py", "os.path.split(unquote_plus(url_path))", "os.path.split(url_path)"))

seed("c19-same-directory-format", "C19", "a json and a csv file of one directory in one query",
     "the first file's format is used for both", FILES + '''
write("t.json", [{"id": "1"}])
write("u.csv", "id,v\\n1,x\\n")
e = engine()
got = query(e, "select a.id, b.v from `t.json` a join `u.csv` b on a.id = b.id")
assert got == [{"id": "1", "v": "x"}], got
''', ("syncanysql/compiler.py", '''                    if d["name"] == path_db_name:
''', '''                    if d.get("path") == path and not db_params and not db_format:
'''))

seed("c19-params-shared", "C19", "two text files with different separators in one query",
     "both are cut at the separator of one", FILES + '''
write("c.log", "1,x")
write("s.log", "1;y")
e = engine()
got = query(e, "select a.seg0 as i, a.seg1 as v, b.seg1 as w from `file://c.log?sep=,` a join `file://s.log?sep=;` b on a.seg0 = b.seg0")
assert got == [{"i": "1", "v": "x", "w": "y"}], got
''', ("syncanysql/compiler.py", 'path_db_name = path_db_name + "_" + str(uuid.uuid1().int)', 'path_db_name = path_db_name + "_" + "_".join(sorted(db_params))'))

seed("c20-parent-lower", "C20", "a variable with a capital letter of the root used in ${} by a context, and one with a small letter of the same name",
     "the lower-case name is looked up in the outer sessions", FILES + '''
e = engine()
e.execute("set @Kk = 'A'; set @kk = 'b'")
c = e.context()
c.execute("insert into o select '${@Kk}' as v")
got = rows(e, "o")
assert got == [{"v": "A"}], got
''', ("syncanysql/executor.py", '''            raise KeyError("%s unknown" % key)
        return self.parent.get_value(key)
''', '''            raise KeyError("%s unknown" % key)
        return self.parent.get_value(key.lower())
'''))

seed("c20-default-colon", "C20", "a default holding a colon",
     "the reference is not recognized and stays in the text", FILES + '''
e = engine()
got = query(e, "select '${mc_none:10:30}' as v")
assert got == [{"v": "10:30"}], got
''', ("syncanysql/executor.py", r'''(\$\{[@\w]+?(:.*?)?\})''', r'''(\$\{[@\w]+?(:[^:]*?)?\})'''))

seed("c20-raw-parenthesis", "C20", "raw SQL that ends with a parenthesis, written inside one comment",
     "its last parentheses are taken off", FILES + '''
import sqlite3
c = sqlite3.connect("x.db")
c.execute("create table t(id integer)")
c.executemany("insert into t values(?)", [(1,), (2,), (3,)])
c.commit()
c.close()
from syncanysql import ScriptEngine
e = ScriptEngine({"loglevel": "CRITICAL", "databases": [{"name": "s", "driver": "sqlite", "database": os.path.abspath("x.db")}]})
got = query(e, "select id from /* raw(s.r) select id from t where id in (1, 2) endraw */ a")
assert got == [{"id": 1}, {"id": 2}], got
''', ("syncanysql/executor.py", r'''(.*?)\s*(\)\s*\/\*)?\s*endraw''', r'''(.*?)\s*(\)\s*(?:\/\*)?)?\s*endraw'''))

seed("c21-annotation-case", "C21", "an annotation whose type is not written in lower case",
     "the annotation is ignored", '''
e = engine()
put(e, "t", [{"id": 1, "c": "10"}, {"id": 2, "c": "9"}])
got = query(e, "select max(`c[INT]`) as m from t")
assert got == [{"m": 10}], got
''', (CO, '''                typing_filter_name = typing_filter[0].lower()''', '''                typing_filter_name = typing_filter[0]'''))

seed("c21-group-annotation", "C21", "GROUP BY of an annotated column that is not in the select list, over values that are the same only after the conversion",
     "rows are grouped by the values as they are stored", '''
e = engine()
put(e, "t", [{"id": 1, "c": "1"}, {"id": 2, "c": " 1 "}, {"id": 3, "c": "2"}])
got = query(e, "select max(id) as m from t group by `c[int]`")
assert got == [{"m": 2}, {"m": 3}], got
''', (CO, '''                    group_column.append(self.compile_column(group_expression, config, arguments, group_expression_column))''',
      '''                    group_column.append("$." + group_expression_column["column_name"])'''))

seed("c21-mediumtext", "C21", "an annotation mediumtext, or convert_mediumtext()",
     "the value is turned into bytes", '''
e = engine()
put(e, "t", [{"id": 1, "c": 10}])
got = query(e, "select `c[mediumtext]` as v from t")
assert got == [{"v": "10"}], got
''', (CO, '''"text": "str", "mediumtext": "str"''', '''"text": "str", "mediumtext": "bytes"'''))

seed("c21-cast-expression", "C21", "CAST of an expression that is not a column",
     "a value of 0, '' or false is given as it is", '''
e = engine()
put(e, "t", [{"id": 1, "c": "0"}])
got = query(e, "select cast(cast(c as int) as text) as v from t")
assert got == [{"v": "0"}], got
''', (CO, '''                return ["#if", ["#const", 1], value_column, None, ":$.*|" + typing_filter]''', '''                return ["#if", value_column, value_column, None, ":$.*|" + typing_filter]'''))

seed("c22-coalesce-four", "C22", "COALESCE of four values, of which the first three are NULL",
     "the last value is left out", '''
e = engine()
put(e, "t", [{"id": 1, "a": None, "b": None, "c": None}])
got = query(e, "select coalesce(a, b, c, 5) as v from t")
assert got == [{"v": 5}], got
''', (CO, '''                    if len(coalesce_expressions) > 2:
                        coalesce_value_column = parse_coalesce(coalesce_expressions[1:])''', '''                    if len(coalesce_expressions) > 3:
                        coalesce_value_column = parse_coalesce(coalesce_expressions[1:])'''))

seed("c22-case-order", "C22", "CASE with three conditions, of which the second and the third hold",
     "the conditions after the first one are tried from the last to the first", '''
e = engine()
put(e, "t", [{"id": 1, "a": 5}])
got = query(e, "select case when a > 9 then 'x' when a > 4 then 'y' when a > 3 then 'z' else '' end as v from t")
assert got == [{"v": "y"}], got
''', (CO, '''                    build_if(case_expressions[0], case_expressions[1:]) if case_expressions else defaul_column,''',
      '''                    build_if(case_expressions[-1], case_expressions[:-1]) if case_expressions else defaul_column,'''))

seed("c22-not-in-null", "C22", "NOT IN of a list with NULL, in the column list",
     "a value that is not in the list gives 1 instead of NULL", '''
e = engine()
put(e, "t", [{"id": 1, "a": 5, "b": None}])
got = query(e, "select a not in (1, b) as v, a in (5, b) as w from t")
assert got == [{"v": None, "w": 1}], got
''', ("syncanysql/calculaters/mysql_funcs/logical_funcs.py", '''            hs_none = True
            continue
        if mysql_eq(a, v):''', '''            continue
        if mysql_eq(a, v):'''))

DT = "syncanysql/calculaters/mysql_funcs/datetime_funcs.py"
seed("c23-time-microseconds", "C23", "TIME() of a datetime with a fraction of a second",
     "the fraction is lost", '''
e = engine()
put(e, "t", [{"id": 1, "s": "2024-02-29 01:02:03.250000"}])
got = query(e, "select time(s) as v from t")
assert got[0]["v"].microsecond == 250000, got
''', (DT, '''        return datetime.time(dt.hour, dt.minute, dt.second, dt.microsecond, tzinfo=get_timezone())''', '''        return datetime.time(dt.hour, dt.minute, dt.second, tzinfo=get_timezone())'''))

seed("c23-from-unixtime-zone", "C23", "FROM_UNIXTIME with a time zone other than UTC in the configuration",
     "the datetime has the clock of UTC", '''
from syncanysql import ScriptEngine
e = ScriptEngine({"loglevel": "CRITICAL", "timezone": "Asia/Shanghai"})
e.setup()
put(e, "t", [{"id": 1, "n": 1709168523}])
got = query(e, "select date_format(from_unixtime(n), '%Y-%m-%d %H:%M:%S') as v from t")
assert got == [{"v": "2024-02-29 09:02:03"}], got
''', (DT, '''    return datetime.datetime.fromtimestamp(int(t), pytz.UTC).astimezone(tz=get_timezone())''', '''    return datetime.datetime.fromtimestamp(int(t), pytz.UTC).replace(tzinfo=get_timezone())'''))

seed("c23-addtime-days", "C23", "ADDTIME or SUBTIME of an interval of days, hours and minutes without seconds",
     "the hours count as minutes", '''
e = engine()
put(e, "t", [{"id": 1, "s": "2024-02-28 01:02:03"}])
got = query(e, "select date_format(addtime(s, '1 10:30'), '%Y-%m-%d %H:%M:%S') as v from t")
assert got == [{"v": "2024-02-29 11:32:03"}], got
''', (DT, '''    if not values[2] and values[3] and values[4] and not values[5]:''', '''    if values[3] and values[4] and not values[5]:'''))

seed("c23-datetime-of-date", "C23", "a comparison or difference of DATETIME() of a date with another datetime",
     "the datetime has no time zone, and the comparison gives NULL", '''
e = engine()
put(e, "t", [{"id": 1, "s": "2024-02-28", "u": "2024-02-28 10:00:00"}])
got = query(e, "select datetime(date(s)) < datetime(u) as v from t")
assert got == [{"v": 1}], got
''', (DT, '''        return datetime.datetime(dt.year, dt.month, dt.day, tzinfo=get_timezone())
    if isinstance(dt, datetime.time):''', '''        return datetime.datetime(dt.year, dt.month, dt.day)
    if isinstance(dt, datetime.time):'''))

NF, SF, RF = ("syncanysql/calculaters/mysql_funcs/%s_funcs.py" % n for n in ("number", "string", "regexp"))
seed("c24-regexp-flags", "C24", "REGEXP_LIKE with the flags of case and of lines together, for a text in the other case",
     "the flag of lines makes the match ignore the case", '''
e = engine()
put(e, "t", [{"id": 1, "s": "x\\nAB"}])
got = query(e, "select regexp_like(s, '^ab', 'cm') as v, regexp_like(s, '^AB', 'cm') as w, regexp_like(s, '^AB', 'c') as x from t")
assert got == [{"v": 0, "w": 1, "x": 0}], got
''', (RF, '''            flags = flags | re.MULTILINE''', '''            flags = re.IGNORECASE | re.MULTILINE'''))

seed("c24-strcmp-numbers", "C24", "STRCMP of two numbers with different numbers of digits",
     "they are compared as numbers", '''
e = engine()
put(e, "t", [{"id": 1, "a": 10, "b": 9}])
got = query(e, "select strcmp(a, b) as v from t")
assert got == [{"v": -1}], got
''', (SF, '''    s1, s2 = ensure_str(s1), ensure_str(s2)
    return 0 if s1 == s2 else (-1 if s1 < s2 else 1)''', '''    if s1.__class__ != s2.__class__:
        s1, s2 = ensure_str(s1), ensure_str(s2)
    return 0 if s1 == s2 else (-1 if s1 < s2 else 1)'''))

seed("c24-greatest-mixed", "C24", "GREATEST of numbers and texts, of which one has a fraction",
     "the fraction is lost", '''
e = engine()
put(e, "t", [{"id": 1, "a": 2.5, "b": "2"}])
got = query(e, "select greatest(a, b) as v from t")
assert got == [{"v": 2.5}], got
''', (NF, '''        return max(*tuple([ensure_number(x) for x in args]))''', '''        return max(*tuple([ensure_int(x) for x in args]))'''))

seed("c24-ceil-text", "C24", "CEIL of a number with a fraction that is stored as a text",
     "the fraction is cut off", '''
e = engine()
put(e, "t", [{"id": 1, "s": "2.25"}])
got = query(e, "select ceil(s) as v, ceiling(s) as w, floor(s) as x from t")
assert got == [{"v": 3, "w": 3, "x": 2}], got
''', (NF, '''@typing_filter(int)
def mysql_ceil(x):
    if x is None:
        return None
    try:
        return math.ceil(x)
    except:
        return math.ceil(ensure_number(x))''', '''@typing_filter(int)
def mysql_ceil(x):
    if x is None:
        return None
    try:
        return math.ceil(x)
    except:
        return math.ceil(ensure_int(x))'''))

JF = "syncanysql/calculaters/mysql_funcs/json_funcs.py"
seed("c25-set-past-end", "C25", "JSON_SET in an element of an array that is not there",
     "the last element of the array is changed", '''
e = engine()
put(e, "t", [{"id": 1, "d": '[{"a": 1}, {"a": 2}]'}])
got = query(e, "select json_set(d, '$[2].a', 9) as v from t")
assert got == [{"v": [{"a": 1}, {"a": 2}]}], got
''', (JF, '''                        json_data[json_path_key] = value
                        return json_data
                    json_data = [] if json_path_key >= len(json_data) else json_data[json_path_key]''', '''                        json_data[json_path_key] = value
                        return json_data
                    json_data = json_data[-1] if json_path_key >= len(json_data) else json_data[json_path_key]'''))

seed("c25-set-in-array", "C25", "JSON_SET of a value below an element, in a document that is an array",
     "the element is given instead of the document", '''
e = engine()
put(e, "t", [{"id": 1, "d": '[[1, 2], 3]'}])
got = query(e, "select json_set(d, '$[0][1]', 9) as v, json_set(d, '$[1]', 9) as w from t")
assert got == [{"v": [[1, 9], 3], "w": [[1, 2], 9]}], got
''', (JF, '''        if not isinstance(json_doc, ArrayObjectTypes):
            json_doc = set_json_path_value''', '''        if not isinstance(json_doc, dict):
            json_doc = set_json_path_value'''))

seed("c25-depth-last", "C25", "JSON_DEPTH of an array whose deepest element is not the last one",
     "the depth of the last element counts", '''
e = engine()
put(e, "t", [{"id": 1, "d": '[[[1]], 2]'}])
got = query(e, "select json_depth(d) as v from t")
assert got == [{"v": 4}], got
''', (JF, '''            return max((get_depth(json_value) for json_value in json_doc)) + 1''', '''            return get_depth(json_doc[-1]) + 1'''))

seed("c25-remove-several", "C25", "JSON_REMOVE of several paths, of which the first one is not there",
     "the paths behind it are left alone", '''
e = engine()
put(e, "t", [{"id": 1, "d": '{"a": 1, "b": 2}'}])
got = query(e, "select json_remove(d, '$.x', '$.a') as v, json_remove(d, '$.a', '$.b') as w from t")
assert got == [{"v": {"b": 2}, "w": {}}], got
''', (JF, '''    for path in paths:
        remove_json_path_value(json_doc, path)''', '''    for path in paths:
        if get_json_path_value(json_doc, path) is None:
            break
        remove_json_path_value(json_doc, path)'''))

RW = "syncanysql/calculaters/row_calculater.py"
seed("c26-row-last-null", "C26", "ROW_LAST of a column that is NULL in the row before",
     "the last value that is not NULL is given", '''
e = engine()
put(e, "t", [{"id": 1, "n": 5}, {"id": 2, "n": None}, {"id": 3, "n": 7}])
got = query(e, "select id, row_last(n) as v from t x")
assert got == [{"id": 1, "v": None}, {"id": 2, "v": 5}, {"id": 3, "v": None}], got
''', (RW, '''        row_last, self.row_last = self.row_last, (args[0] if len(args) == 1 else args)''', '''        row_last, self.row_last = self.row_last, (args[0] if len(args) == 1 else args)
        if self.row_last is None:
            self.row_last = row_last'''))

seed("c26-nested-attribute", "C26", "a function three attributes deep in an imported module",
     "the object that it is an attribute of is called", '''
import sys, types
m = types.ModuleType("demo_mod")
m.name = lambda: "outer"
class Inner:
    @staticmethod
    def name():
        return "inner"
    def __new__(cls):
        return "made"
m.space = types.SimpleNamespace(box=Inner, name=lambda: "space")
sys.modules["demo_mod"] = m
e = engine()
put(e, "t", [{"id": 1}])
e.execute("use `demo_mod as dm`")
got = query(e, "select dm$space$box$name() as v, dm$space$name() as u, dm$name() as w from t")
assert got == [{"v": "inner", "u": "space", "w": "outer"}], got
''', (CO, '''(("::" + ".".join(calculater_modules[1:])) if len''', '''(("::" + ".".join(calculater_modules[1:3])) if len'''))

seed("c26-yield-null", "C26", "YIELD_ARRAY of an array that holds NULL",
     "the row of the NULL is missing", '''
e = engine()
put(e, "t", [{"id": 1, "l": [1, None, 2]}, {"id": 2, "l": [3]}])
got = query(e, "select id, yield_array(l) as v from t x")
assert [r["v"] for r in got] == [1, None, 2, 3], got
''', ("syncanysql/calculaters/generate_calculater.py", '''            for value in values:
                yield value''', '''            for value in values:
                if value is not None:
                    yield value'''))

seed("c26-pyeval-null", "C26", "PYEVAL with NULL among its arguments",
     "the arguments behind it move to the left", '''
e = engine()
put(e, "t", [{"id": 1, "n": None}, {"id": 2, "n": 3}])
got = query(e, "select id, pyeval('args[1]', n, id) as v, pyeval('len(args)', n) as w from t x")
assert got == [{"id": 1, "v": 1, "w": 1}, {"id": 2, "v": 2, "w": 1}], got
''', ("syncanysql/calculaters/pyeval_calculater.py", '''{"args": args[1:]}''', '''{"args": tuple(a for a in args[1:] if a is not None)}'''))

seed("c18-formats-stop", "C18", "a top-level format and a database of text files configured after one of another kind",
     "the databases after the first one that holds no text files do not get the format", FILES + '''
import datetime
write("config.json", {"datetime_format": "%Y/%m", "databases": [{"name": "x", "driver": "json", "path": "./"}, {"name": "m", "driver": "memory"}, {"name": "y", "driver": "json", "path": "./"}]})
e = engine()
e.push_memory_datas("t", [{"id": 1, "d": datetime.datetime(2021, 3, 4)}])
e.execute("insert into x.`a.json` select id, d from t; insert into y.`b.json` select id, d from t")
got = [json.load(open(n))[0]["d"] for n in ("a.json", "b.json")]
assert got == ["2021/03"] * 2, got
''', (CF, '''            if database["driver"] not in ("textline", "json", "csv"):
                continue
''', '''            if database["driver"] not in ("textline", "json", "csv"):
                break
'''))

seed("c18-extension-stops-others", "C18", "extensions of which one that is not the last cannot be loaded",
     "the extensions after it are not loaded", FILES + '''
write(".syncany/c18_ext.py", "import os; os.environ['C18_EXT'] = 'loaded'")
write("config.json", {"extensions": ["c18_not_there", "c18_ext"]})
sys.path.insert(0, os.path.abspath(".syncany"))
e = engine()
e.execute("set @z = 1")
assert os.environ.get("C18_EXT") == "loaded"
''', (CF, '''        for extension in extensions:
            try:
                __import__(extension, globals(), locals(), [extension.rpartition(".")[-1]])
            except Exception as e:
''', '''        try:
            for extension in extensions:
                __import__(extension, globals(), locals(), [extension.rpartition(".")[-1]])
        except Exception as e:
                # what failed
'''))

VIEWS = FILES + '''
import sqlite3
c = sqlite3.connect("s.db")
c.execute("create table t (id integer, at text)")
c.executemany("insert into t values (?, ?)", [(1, "09:30"), (2, "10:30"), (3, "11:30")])
c.commit()
c.close()
write("config.json", {"databases": [{"name": "s", "driver": "sqlite", "database": os.path.abspath("s.db")}]})
e = engine()
'''

seed("c27-default-colon", "C27", "a parameter of a view whose default holds a colon",
     "the default ends at the colon", VIEWS + '''
e.execute("set @config.databases.s.virtual_views.w = 'select id from t where at >= #{at__gte:10:00}'")
got = query(e, "select id from s.w x")
assert got == [{"id": 2}, {"id": 3}], got
e.execute("set @config.databases.s.virtual_views.w = 'select id from t where at < #{at__lt:10:30}'")
got = query(e, "select id from s.w x")
assert got == [{"id": 1}], got
''', (CF, '''            try:
                default_value = json.loads(default_value[1:])
            except:
                default_value = default_value[1:]
''', '''            default_value = default_value.split(":")[-1]
            try:
                default_value = json.loads(default_value)
            except:
                pass
'''))

seed("c27-parameter-twice", "C27", "a view that has one parameter in two places",
     "the parameter is given once: the view cannot be read", VIEWS + '''
e.execute("set @config.databases.s.virtual_views.w = 'select id, at from t where id >= #{id__gte:2} or id + 2 = #{id__gte:2} + 1'")
got = query(e, "select id from s.w x")
assert got == [{"id": 1}, {"id": 2}, {"id": 3}], got
got = query(e, "select id from s.w x where id >= 3")
assert got == [{"id": 2}, {"id": 3}], got
''', (CF, '''            args.append([arg_info[0], exps[arg_info[1]] if len(arg_info) >= 2 else "==", default_value])
''', '''            if any(arg_info[0] == name and (exps[arg_info[1]] if len(arg_info) >= 2 else "==") == exp for name, exp, _ in args):
                query = query.replace(arg, '%s')
                continue
            args.append([arg_info[0], exps[arg_info[1]] if len(arg_info) >= 2 else "==", default_value])
'''))

seed("c27-view-redefined-arguments", "C27", "a view defined again, the second time with fewer parameters",
     "the parameters of the first definition stay", VIEWS + '''
e.execute("set @config.databases.s.virtual_views.w = 'select id from t where at >= #{at__gte:10:00}'")
e.execute("set @config.databases.s.virtual_views.w = 'select id from t where id > 1'")
got = query(e, "select id from s.w x")
assert got == [{"id": 2}, {"id": 3}], got
''', (CF, '''                        set_virtual_view["query"], set_virtual_view["args"] = self.parse_virtual_view_args(value)
''', '''                        set_virtual_view["query"], args = self.parse_virtual_view_args(value)
                        set_virtual_view["args"][:len(args)] = args
'''))

seed("c27-view-of-first-name", "C27", "two views of one database set in one session",
     "the second view replaces the first", VIEWS + '''
e.execute("set @config.databases.s.virtual_views.w = 'select 5 as id'")
e.execute("set @config.databases.s.virtual_views.u = 'select 6 as id'")
e.execute("set @config.databases.s.virtual_views.u = null")
got = query(e, "select id from s.w x")
assert got == [{"id": 5}], got
''', (CF, '''                        set_database["virtual_views"].remove(set_virtual_view)
''', '''                        set_database.pop("virtual_views", None)
'''))

seed("c28-explain-starts-twice", "C28", "EXPLAIN in front of an INSERT of a query",
     "the plan is made on the tasker itself, whose dependencies are started a second time", '''
import contextlib, io
def state(sql):
    e = engine()
    put(e, "t", [{"id": 1, "n": 3}, {"id": 2, "n": 3}, {"id": 3, "n": 5}])
    with contextlib.redirect_stdout(io.StringIO()):
        e.execute(sql)
    return rows(e, "r")
got = [state(x + "insert into r select n, count(*) c from t x group by n having c > 1") for x in ("", "explain ")]
assert got[0] == got[1] and len(got[0]) == 1, got
''', ("syncanysql/taskers/explain.py", '''        self.config = copy.deepcopy(self.tasker.config)
''', '''        self.config = self.tasker.config
        for key in ("databases", "imports", "sources", "intercept", "pipelines"):
            # read from the session anyway
            self.config[key] = None
'''))

seed("c28-primary-order", "C28", "@primary_order set in a session, and a query of a table that is not stored in the order of its first column",
     "the setting reaches the query and its rows come in another order", '''
def state(*before):
    e = engine()
    put(e, "t", [{"id": 3, "n": 3}, {"id": 1, "n": 4}, {"id": 2, "n": 5}])
    for s in before:
        e.execute(s)
    return query(e, "select id, n from t x"), query(e, "select id, n from t x order by n desc")
assert state() == state("set @primary_order = true"), (state(), state("set @primary_order = true"))
''', ("syncanysql/executor.py", '''"@use_output_type": self.env_variables.get("@use_output_type", None), "@primary_order": False}''', '''"@use_output_type": self.env_variables.get("@use_output_type", None), "@primary_order": self.env_variables.get("@primary_order", False)}'''))

seed("c28-show-imports-pops", "C28", "SHOW DATABASES, then a statement that reads a configured database",
     "the databases shown are the session's own and lose what is printed", FILES + '''
import contextlib, io
write("config.json", {"databases": [{"name": "d", "driver": "json", "path": "pa"}], "imports": {"m": "math"}})
write("pa/t.json", [{"id": 4}])
def run(*sqls):
    e = engine()
    with contextlib.redirect_stdout(io.StringIO()):
        for s in sqls:
            e.execute(s)
    return query(e, "select id, m$sqrt(id) q from d.`t.json`")
assert run() == run("show imports") == [{"id": 4, "q": 2.0}]
got = run("show databases", "show imports", "set @z = 1")
assert got == [{"id": 4, "q": 2.0}], got
''', ("syncanysql/taskers/show.py", '''        databases = copy.deepcopy(session_config.get().get("databases", []))
''', '''        databases = list(session_config.get().get("databases", []))
'''))

REC = '''
e = engine()
put(e, "g", [{"a": 1, "b": 2}, {"a": 2, "b": 3}, {"a": 1, "b": 3}, {"a": 3, "b": 4}, {"a": 4, "b": 5}])
'''

seed("c29-recursive-batch", "C29", "a recursive table in a session with @batch set above 1, and rows that are reached in one step with others",
     "the rule reads its table in the session's batches", REC + '''
sql = "with recursive x as (select 1 as n union all select g.b as n from x x inner join g g on g.a = x.n) select n from x"
for batch in (0, 1, 2, 3, 4, 5):
    e.execute("set @batch = %d" % batch)
    got = sorted(r["n"] for r in query(e, sql))
    assert got == [1, 2, 3, 3, 4, 4, 5, 5], (batch, got)
''', ("syncanysql/compiler.py", '''                    arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@batch"] = 1
''', '''                    arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@batch"] = arguments.get("@batch") or 1
'''))

seed("c29-loop-of-first-only", "C29", "two recursive tables in one statement",
     "only the first recursive table is followed until it gives no more", REC + '''
got = query(e, "with recursive x as (select 1 as n union all select n + 1 as n from x where n < 3), y as (select 5 as n union all select n + 1 as n from y where n < 8) select n from x union all select n from y")
assert [r["n"] for r in got] == [1, 2, 3, 5, 6, 7, 8], got
''', ("syncanysql/compiler.py", '''                    arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
''', '''                    arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = not any(key.endswith("@@loop") for key in arguments)
'''))

DOC = '''
e = engine()
put(e, "t", [{"id": 1, "n": 1, "o": {"a": 1, "b": {"c": 5, "l": [3, 1, 2]}}}, {"id": 2, "n": 2, "o": {"a": 2, "b": {"c": 4, "l": [7, 8]}}}, {"id": 3, "n": 1, "o": {"b": None}}])
put(e, "u", [{"k": 1, "m": "one"}, {"k": 2, "m": "two"}])
'''

seed("c30-index-from-the-end", "C30", "get_value with a negative index as an argument of its own",
     "an index from the end of a list is read as a key", DOC + '''
got = query(e, "select id, get_value(o, 'b.l', 0) a, get_value(o, 'b', 'l', -1) z from t")
assert got == [{"id": 1, "a": 3, "z": 2}, {"id": 2, "a": 7, "z": 8}, {"id": 3, "a": None, "z": None}], got
''', (CO, '''isinstance(get_value_key, NumberTypes) else (":$." + str(get_value_key)))''', '''isinstance(get_value_key, NumberTypes) and get_value_key >= 0 else (":$." + str(get_value_key)))'''))

seed("c30-slice-to-zero", "C30", "get_value with a slice that ends at 0",
     "an end of 0 is dropped from the slice, which becomes an index", DOC + '''
for s, want in (("(0, 2)", [3, 1]), ("(2, 0)", []), ("(2, 0, -1)", [2, 1]), ("(0, 0)", [])):
    got = [r["q"] for r in query(e, "select get_value(o, 'b.l', %s) q from t where id = 1" % s)]
    assert got == [want], (s, got)
''', (CO, '''for i in get_value_indexs if isinstance(i, (float, int))][:3]''', '''for n, i in enumerate(get_value_indexs) if isinstance(i, (float, int)) and (i or not n)][:3]'''))

seed("c30-names-of-last-keys", "C30", "two paths with the same last key, selected without names of their own",
     "both columns get the name of that key and one value is lost", DOC + '''
put(e, "w", [{"id": 1, "o": {"a": 1, "b": {"a": 2}}}])
got = [list(r.values()) for r in query(e, "select id, `o.a`, `o.b.a` from w")]
assert got == [[1, 1, 2]], got
''', (CO, '''            column_alias = column_info["column_name"].replace(".", "_")
''', '''            column_alias = column_info["column_name"].split(".")[-1]
'''))
