AGG = "syncanysql/calculaters/aggregate_calculater.py"
QT = "syncanysql/taskers/query.py"
CO = "syncanysql/compiler.py"
LF = "syncanysql/calculaters/mysql_funcs/logical_funcs.py"

MEM = '''
M = {"databases": [{"name": "m", "driver": "memory"}]}
'''

seed("c01-bitand-zero-state", "C01", "GROUP_BIT_AND partial results of which an earlier one is 0, merged with a later batch of the same group",
     "a partial AND of 0 is treated as 'no state yet' when partial results are merged, so the later batch replaces it",
     MEM + '''
e = engine(**M)
put(e, "t", [{"id": 0, "g": 1, "v": 4}, {"id": 1, "g": 1, "v": 3}, {"id": 2, "g": 1, "v": 7}, {"id": 3, "g": 1, "v": 7}], db="m")
e.execute("set @batch=2")
e.execute("insert into `o` select g, group_bit_and(v) as s from m.t group by g")
r = rows(e, "o")
assert [(x["g"], x["s"]) for x in r] == [(1, 0)], r
''', (AGG, '''            return state_value & data_value
        return state_value & ensure_int(data_value)

    def reduce(self, state_value, data_value):
        if data_value is None:
            return state_value
        if state_value is None:
            return data_value''', '''            return state_value & data_value
        return state_value & ensure_int(data_value)

    def reduce(self, state_value, data_value):
        if data_value is None:
            return state_value
        if not state_value:
            return data_value'''))

seed("c02-count-distinct-falsy", "C02", "COUNT(DISTINCT c) over a group containing 0 or '' ",
     "values that are falsy (0, empty string) are treated like NULL and not counted",
     '''
e = engine()
put(e, "t", [{"id": 0, "g": 1, "v": 0}, {"id": 1, "g": 1, "v": 0}, {"id": 2, "g": 1, "v": 2}])
r = query(e, "select g, count(distinct v) as c from t group by g")
assert [(x["g"], x["c"]) for x in r] == [(1, 2)], r
''', (AGG, '''class AggregateDistinctCountCalculater(StateAggregateCalculater):
    def aggregate(self, state_value, data_value):
        if data_value is None:''', '''class AggregateDistinctCountCalculater(StateAggregateCalculater):
    def aggregate(self, state_value, data_value):
        if not data_value:'''))

seed("c04-third-having-lost", "C04", "a join with three ON conditions that are all evaluated after loading",
     "when the post-load ON conditions are chained, the inner pair drops its first condition",
     '''
e = engine()
put(e, "t", [{"id": 0, "a": 1, "b": 1}])
put(e, "u", [{"id": 0, "k": 1, "v": 1}, {"id": 1, "k": 1, "v": 2}, {"id": 2, "k": 1, "v": 3}])
r = query(e, "select t.a as a, u.v as v from t t left join u u on u.k = t.a and u.v >= t.b and u.v != t.b + 1 and u.v + 1 > t.b")
assert sorted(x["v"] for x in r) == [1, 3], r
''', (CO, '''                                                                            right_having_expression[1:])
                                return ["#if", left_having_column, right_having_column, ["#const", 0]]''', '''                                                                            right_having_expression[1:])
                                return ["#if", left_having_column, ["#const", 1], right_having_column]'''))

seed("c04-join-loader-neq", "C04", "a join whose ON has two conditions of the same operator on one joined column",
     "the second condition with the same operator on a joined column is dropped",
     '''
e = engine()
put(e, "t", [{"id": 0, "a": 1}])
put(e, "u", [{"id": 0, "k": 1, "v": 1}, {"id": 1, "k": 1, "v": 2}, {"id": 2, "k": 1, "v": 3}])
r = query(e, "select t.a as a, u.v as v from t t inner join u u on u.k = t.a and u.v != 1 and u.v != 2")
assert [x["v"] for x in r] == [3], r
''', (CO, '''            condition_querys = join_table["querys"][condition_column["typing_name"]]
            if isinstance(condition_querys, dict):
                if condition_exp not in condition_querys:''', '''            condition_querys = join_table["querys"][condition_column["typing_name"]]
            if isinstance(condition_querys, dict):
                if condition_exp not in condition_querys or condition_calculater == condition_querys or condition_exp == "!=":'''))

seed("c03-third-neq-lost", "C03", "three different != conditions on one column",
     "the third != condition on a column replaces the second instead of being added",
     '''
e = engine()
put(e, "t", [{"id": i, "a": i} for i in range(5)])
r = query(e, "select id, a from t where a != 1 and a != 2")
assert [x["a"] for x in r] == [0, 3, 4], r
r = query(e, "select id, a from t where a != 1 and a != 2 and a != 3")
assert [x["a"] for x in r] == [0, 4], r
''', (CO, '''                condition_querys = [condition_querys]
                config["querys"][condition_column["typing_name"]] = condition_querys
            for condition_query in condition_querys:
                if condition_exp not in condition_query:
                    condition_query[condition_exp] = condition_calculater
                    return None
''', '''                condition_querys = [condition_querys]
                config["querys"][condition_column["typing_name"]] = condition_querys
            for i, condition_query in enumerate(condition_querys):
                if condition_exp not in condition_query or i > 0:
                    condition_query[condition_exp] = condition_calculater
                    return None
'''))
