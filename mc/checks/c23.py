"""C23  Date and time functions follow the calendar and the clock.

Every day of a set of years, every pair of a set of moments, every interval of a set of units and amounts: the engine's value against a calendar computed here from day numbers.
"""
import gc
import itertools
import zoneinfo
import datetime

from eng import Engine, Err
from core import watchdog

LEVEL = "model_checking"
COMMON = ("as text, datetime(), date(), convert_datetime, CAST and datetime(date()), with and without a time of day: year, month, dayofmonth, dayofyear, dayofweek, weekday, dayname, monthname, week and yearweek in all modes, date, datetime, time, datediff, "
          "date_format, time_format; every day of 2023 to 2025 +- 0 to 26 (120) months, 0 to 9 quarters, 0 to 100 years; 21 moments around the ends of minutes, days, months, leap years and centuries, with and without microseconds: every one +- every "
          "unit x 2 to 11 amounts in 7 spellings of the addition, the amount a column, an expression, a text, a negative; the difference of every pair of 42 in the nine units and in days; every pair in = != < <= > >=, BETWEEN and IN, as columns and in WHERE; "
          "ADDTIME / SUBTIME of 18 intervals; ")
BOUND = {"quick": "Every day of 23 years (1600, 1899, 1900, 1999 to 2001, 2015 to 2030, 2100), " + COMMON + "1400 seconds of the day through TIME_TO_SEC and SEC_TO_TIME; 250 instants in 6 time zones through FROM_UNIXTIME, UNIX_TIMESTAMP and datetime texts; all functions over NULL and "
         "texts that are no date; dates and intervals as keys, conditions, in joins, aggregates and derived tables",
         "thorough": "Every day of 1582 to 2400, " + COMMON.replace("2023 to 2025", "eight years") + "every second of the day through TIME_TO_SEC and SEC_TO_TIME; 738 instants in every time zone there is; all functions over NULL and texts that are no date; dates and intervals as keys, "
         "conditions, in joins, aggregates and derived tables"}
ASSUME = ["a datetime without an offset is in the configured time zone, and differences and intervals count its wall clock; a local time that the zone has twice or not at all is not judged", "DATE_FORMAT and TIME_FORMAT use the format letters of Python",
          "ADDTIME and SUBTIME of a number, of '10:00' without days and of times, composite units (HOUR_MINUTE), fractions of a unit and functions that give the current time are not part of it", "results past the year 9999 are NULL"]

# -- the calendar: years of 365 or 366 days, counted in days ------------------------------------------------------------------


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_days(y, m):
    return 29 if m == 2 and leap(y) else (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


STARTS = {}


def start(y):
    """number of January 1st; 0001-01-01 is 1, a Monday"""
    if y not in STARTS:
        STARTS[y] = 1 if y == 1 else start(y - 1) + 365 + leap(y - 1) if y % 100 != 1 else 1 + sum(365 + leap(k) for k in range(1, y))
    return STARTS[y]


def number(d):
    return start(d[0]) + sum(month_days(d[0], m) for m in range(1, d[1])) + d[2] - 1


def day(n):
    y = n // 366 + 1
    while start(y + 1) <= n:
        y += 1
    n -= start(y)
    m = 1
    while n >= month_days(y, m):
        n -= month_days(y, m)
        m += 1
    return y, m, n + 1


def weekday(d):
    return (number(d) - 1) % 7              # Monday = 0


def add_months(d, k):
    m = d[0] * 12 + d[1] - 1 + k
    y, m = m // 12, m % 12 + 1
    return (y, m, min(d[2], month_days(y, m))) + tuple(d[3:])


US = {"WEEK": 7 * 86400 * 10 ** 6, "DAY": 86400 * 10 ** 6, "HOUR": 3600 * 10 ** 6, "MINUTE": 60 * 10 ** 6, "SECOND": 10 ** 6, "MICROSECOND": 1}
MONTHS = {"YEAR": 12, "QUARTER": 3, "MONTH": 1}


def micros(d):
    d = d + (0,) * (7 - len(d))
    return ((number(d[:3]) * 24 + d[3]) * 60 + d[4]) * 60 * 10 ** 6 + d[5] * 10 ** 6 + d[6]


def moment(us):
    n, us = divmod(us, 86400 * 10 ** 6)
    s, us = divmod(us, 10 ** 6)
    return day(n) + (s // 3600, s // 60 % 60, s % 60, us)


def add(d, k, unit):
    d = d + (0,) * (7 - len(d))
    return add_months(d, k * MONTHS[unit]) if unit in MONTHS else moment(micros(d) + k * US[unit])


def diff(unit, d, e):
    if unit not in MONTHS:
        n = micros(e) - micros(d)
        return n // US[unit] if n >= 0 else -(-n // US[unit])
    # the largest number of units that do not go past the other moment
    if micros(e) < micros(d):
        return -diff(unit, e, d)
    k = 0
    d, e = d + (0,) * (7 - len(d)), e + (0,) * (7 - len(e))
    while (e[0] * 12 + e[1]) - (d[0] * 12 + d[1]) > (k + 1) * MONTHS[unit] or (e[0] * 12 + e[1]) - (d[0] * 12 + d[1]) == (k + 1) * MONTHS[unit] and e[2:] >= d[2:]:
        k += 1
    return k


def week(d, mode, full=False):
    """number of the week in its year, by listing the weeks of the year (MySQL's eight modes)"""
    monday, year_mode = mode in (1, 3, 5, 7), mode in (2, 3, 6, 7) or full
    four = mode in (1, 3, 4, 6)

    def weeks(y):
        """first days of the weeks of a year"""
        first = start(y)
        n = first - ((first - 1) % 7 if monday else first % 7)
        inside = sum(1 for k in range(n, n + 7) if k >= first)
        return n if (inside >= 4 if four else inside == 7) else n + 7
    n, y = number(d), d[0]
    if n < weeks(y):
        if not year_mode:
            return y, 0
        y -= 1
    elif year_mode and n >= weeks(y + 1):
        y += 1
    return y, (n - weeks(y)) // 7 + 1


DAYS = ("Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday")
NAMES = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December")


def text(d):
    out = "%04d-%02d-%02d" % d[:3]
    if len(d) > 3:
        out += " %02d:%02d:%02d" % d[3:6]
        if len(d) > 6 and d[6]:
            out += ".%06d" % d[6]
    return out


def plain(v):
    """a value without its class of date and its time zone"""
    if isinstance(v, datetime.datetime):
        return (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
    if isinstance(v, datetime.date):
        return (v.year, v.month, v.day, 0, 0, 0, 0)
    if isinstance(v, datetime.time):
        return (v.hour, v.minute, v.second, v.microsecond)
    return v


# -- how a moment is written ---------------------------------------------------------------------------------------------------
FORMS = {"text": "{0}", "datetime": "datetime({0})", "date": "date({0})", "converted": "convert_datetime({0})", "cast": "cast({0} as datetime)", "midnight": "datetime(date({0}))"}
SHORT = ("date", "midnight")         # without the time of day
FIELDS = {
    "year({})": lambda d: d[0], "month({})": lambda d: d[1], "dayofmonth({})": lambda d: d[2], "dayofyear({})": lambda d: number(d) - start(d[0]) + 1,
    "dayofweek({})": lambda d: (weekday(d) + 1) % 7 + 1, "weekday({})": weekday, "dayname({})": lambda d: DAYS[weekday(d)], "monthname({})": lambda d: NAMES[d[1] - 1],
    "week({})": lambda d: week(d, 0)[1], "yearweek({})": lambda d: week(d, 0, True)[0] * 100 + week(d, 0, True)[1],
    "date({})": lambda d: d[:3] + (0, 0, 0, 0), "datetime({})": lambda d: d + (0,) * (7 - len(d)), "time({})": lambda d: (d + (0,) * (7 - len(d)))[3:],
    "datediff({}, '2000-02-29')": lambda d: number(d) - number((2000, 2, 29)), "date_format({}, '%Y-%m-%d|%j|%y')": lambda d: "%04d-%02d-%02d|%03d|%02d" % (d + (number(d) - start(d[0]) + 1, d[0] % 100)),
}
for _m in range(8):
    FIELDS["week({}, %d)" % _m] = lambda d, m=_m: week(d, m)[1]
    FIELDS["yearweek({}, %d)" % _m] = lambda d, m=_m: week(d, m, True)[0] * 100 + week(d, m, True)[1]

YEARS = {"quick": [1600, 1899, 1900, 1999, 2000, 2001] + list(range(2015, 2031)) + [2100], "thorough": list(range(1582, 2401))}
UNITS = list(MONTHS) + list(US)
AMOUNTS = {"YEAR": (0, 1, 3, 4, 100), "QUARTER": (0, 1, 2, 3, 4, 5, 9), "MONTH": tuple(range(0, 27)) + (120,), "WEEK": (0, 1, 5, 53), "DAY": (0, 1, 27, 28, 29, 30, 31, 60, 365, 366, 1000),
           "HOUR": (0, 1, 23, 24, 25, 8784), "MINUTE": (0, 1, 59, 60, 61, 1440, 100000), "SECOND": (0, 1, 59, 60, 61, 86400, 10 ** 7), "MICROSECOND": (0, 1, 999999, 10 ** 6, 10 ** 6 + 1)}
# moments around the ends of minutes, days, months and years
MOMENTS = [(2023, 1, 31, 0, 0, 0), (2023, 2, 28, 23, 59, 59), (2023, 12, 31, 23, 59, 59), (2024, 1, 1, 0, 0, 0), (2024, 1, 30, 12, 0, 0), (2024, 2, 28, 0, 0, 1), (2024, 2, 29, 0, 0, 0), (2024, 2, 29, 13, 14, 15, 999999),
           (2024, 3, 1, 0, 0, 0), (2024, 3, 31, 6, 30, 0), (2024, 4, 30, 1, 2, 3), (2024, 5, 31, 0, 0, 0, 1), (2024, 10, 15, 10, 59, 59, 500000), (2024, 11, 30, 20, 0, 0), (2024, 12, 1, 0, 0, 0), (2024, 12, 31, 0, 0, 0),
           (2025, 2, 28, 0, 0, 0), (2000, 2, 29, 1, 0, 0), (1999, 12, 31, 12, 34, 56), (1900, 3, 1, 0, 0, 0), (2100, 2, 28, 22, 0, 0)]
ZONES = ("UTC", "Asia/Shanghai", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns")
PLUS = ("date_add({0}, interval {1} {2})", "{0} + interval {1} {2}", "adddate({0}, interval {1} {2})", "interval {1} {2} + {0}")
MINUS = ("date_sub({0}, interval {1} {2})", "{0} - interval {1} {2}", "subdate({0}, interval {1} {2})")


def units(tier):
    out = [("fields", y, tier) for y in YEARS[tier]]
    out += [("months", y, tier) for y in ((2023, 2024, 2025) if tier == "quick" else (1999, 2000, 2001, 2023, 2024, 2025, 2026, 2100))]
    out += [("delta", u, tier) for u in UNITS] + [("diff", u, tier) for u in UNITS] + [("days", None, tier), ("moments", None, tier), ("compare", None, tier), ("clock", None, tier), ("time", None, tier), ("null", None, tier), ("places", None, tier)]
    return out + [("zone", z, tier) for z in (ZONES if tier == "quick" else sorted(zoneinfo.available_timezones()))]


def fresh(zone="UTC"):
    gc.collect()
    return Engine({"timezone": zone})


class Batch(object):
    """Expressions over a table: one query for several of them."""

    def __init__(self, e, rows, rec, size=10):
        self.e, self.rows, self.rec, self.size = e, rows, rec, size
        self.todo = []
        e.clear()
        e.put("t", rows)

    def want(self, sql, f, place=None):
        """f(row) is the value of sql in the row"""
        self.todo.append((sql, f, place or sql))
        if len(self.todo) >= self.size:
            self.run()

    def run(self):
        todo, self.todo = self.todo, []
        if not todo:
            return
        gc.collect()
        with watchdog(60):
            got = self.e.query("select id, %s from t" % ", ".join("%s as v%d" % (s, i) for i, (s, _, _) in enumerate(todo)))
        if isinstance(got, Err) or len(got) != len(self.rows):
            if len(todo) > 1:
                for one in todo:
                    self.todo = [one]
                    self.run()
            else:
                self.rec.bad(todo[0][2], "%s gives %s" % (todo[0][0], str(got)[:200]), {"expression": todo[0][0]})
            return
        for i, (s, f, place) in enumerate(todo):
            for row, r in zip(self.rows, got):
                want = f(row)
                if not self.rec.state(s, *[row[k] for k in sorted(row) if k != "id"]):
                    continue
                self.rec.transitions += 1
                v = plain(r["v%d" % i])
                if want is SKIP or v == want and type(v) in (type(want), bool):
                    self.rec.ok((place, str(want)), s)
                else:
                    self.rec.bad(place, "%s of %r gives %r instead of %r" % (s, {k: x for k, x in row.items() if k[0] != "_"}, v, want), {"expression": s, "row": repr(row)})


SKIP = object()


def explore(unit, rec):
    what, arg, tier = unit
    globals()["do_" + what](fresh(arg if what == "zone" else "UTC"), arg, tier, rec)


def table(moments):
    return [{"id": i + 1, "s": text(d), "_d": d} for i, d in enumerate(moments)]


def do_fields(e, y, tier, rec):
    days = [(y, m, d) for m in range(1, 13) for d in range(1, month_days(y, m) + 1)]
    for form in FORMS:
        b = Batch(e, table(days), rec)
        for f, want in FIELDS.items():
            b.want(f.format(FORMS[form].format("s")), lambda r, w=want: w(r["_d"]), "%s of %s" % (f, form))
        b.run()
    # with a time of day
    b = Batch(e, table([d + ((d[2] * 7) % 24, (d[1] * 13 + d[2]) % 60, (d[2] * 29) % 60) for d in days]), rec)
    for form in FORMS:
        for f, want in FIELDS.items():
            if not f.startswith("date_format"):
                b.want(f.format(FORMS[form].format("s")), lambda r, w=want, n=3 if form in SHORT else 7: w(r["_d"][:n]), "%s of %s with time" % (f, form))
        if form not in SHORT:
            b.want("date_format(%s, '%%H:%%M:%%S')" % FORMS[form].format("s"), lambda r: "%02d:%02d:%02d" % r["_d"][3:6])
            b.want("time_format(time(%s), '%%H.%%M.%%S')" % FORMS[form].format("s"), lambda r: "%02d.%02d.%02d" % r["_d"][3:6])
    b.run()


def do_moments(e, _, tier, rec):
    b = Batch(e, table(MOMENTS), rec)
    for form in FORMS:
        for f, want in FIELDS.items():
            if not f.startswith("date_format"):
                b.want(f.format(FORMS[form].format("s")), lambda r, w=want, n=3 if form in SHORT else 7: w(r["_d"][:n]), "%s of %s" % (f, form))
    b.want("date_format(s, '%Y%m%d%H%M%S.%f')", lambda r: "%04d%02d%02d%02d%02d%02d.%06d" % (r["_d"] + (0,) * (7 - len(r["_d"]))))
    b.want("time_format(time(s), '%H%M%S.%f')", lambda r: "%02d%02d%02d.%06d" % (r["_d"] + (0,) * (7 - len(r["_d"])))[3:])
    b.run()


def do_months(e, y, tier, rec):
    days = [(y, m, d) for m in range(1, 13) for d in range(1, month_days(y, m) + 1)]
    b = Batch(e, table(days), rec)
    for unit in MONTHS:
        for k in AMOUNTS[unit]:
            for form in ("text", "datetime", "date"):
                for n, (ts, sign) in enumerate(((PLUS, 1), (MINUS, -1), (PLUS, -1), (MINUS, 1))):
                    for t in ts if form == "text" or tier == "thorough" else ts[:1] if n < 2 else ():
                        amount = str(k) if n < 2 else "-%d" % k
                        b.want(t.format(FORMS[form].format("s"), amount, unit if k % 2 else unit.lower()), lambda r, k=k * sign, u=unit: add(r["_d"], k, u), t.format("d", "k" if n < 2 else "-k", unit))
    b.run()


def forms(moments):
    return ("text", "datetime", "converted")


def do_delta(e, unit, tier, rec):
    rows = []
    for d in MOMENTS:
        for k in AMOUNTS[unit]:
            for sign in (1, -1):
                rows.append({"id": len(rows) + 1, "s": text(d), "k": k * sign, "c": str(k * sign), "_d": d})
    b = Batch(e, rows, rec)
    for form in forms(MOMENTS):
        for ts, sign in ((PLUS, 1), (MINUS, -1)):
            for t in ts:
                for amount in ("k", "(k)", "(k - 1 + 1)", "-k", "ifnull(k, 9)", "c", "if(k = 0, 0, k)"):
                    f = (lambda r, u=unit, s=sign * (-1 if amount == "-k" else 1): add(r["_d"], r["k"] * s, u))
                    b.want(t.format(FORMS[form].format("s"), amount, unit), f, t.format("d", amount, unit))
    if unit == "DAY":
        for form in forms(MOMENTS):
            x = FORMS[form].format("s")
            for t in ("date_add(%s, k)", "adddate(%s, k)"):
                b.want(t % x, lambda r: add(r["_d"], r["k"], "DAY"), t)
            for t in ("date_sub(%s, k)", "subdate(%s, k)"):
                b.want(t % x, lambda r: add(r["_d"], -r["k"], "DAY"), t)
    b.run()
    # dates: days and longer keep the date, shorter begin at midnight
    days = sorted({d[:3] for d in MOMENTS})
    b = Batch(e, [{"id": i + 1, "s": text(d), "k": k, "_d": d} for i, (d, k) in enumerate((d, k * s) for d in days for k in AMOUNTS[unit] for s in (1, -1))], rec)
    for t in PLUS:
        b.want(t.format("date(s)", "k", unit), lambda r: add(r["_d"], r["k"], unit), "date: " + t.format("d", "k", unit))
    for t in MINUS:
        b.want(t.format("date(s)", "k", unit), lambda r: add(r["_d"], -r["k"], unit), "date: " + t.format("d", "k", unit))
    # there and back, two intervals one after the other
    for k in AMOUNTS[unit][1:3]:
        b.want("s + interval %d %s + interval k DAY - interval 1 MONTH" % (k, unit), lambda r, k=k: add(add(add(r["_d"], k, unit), r["k"], "DAY"), -1, "MONTH") if abs(r["k"]) <= 100000 else SKIP, "chain")
    b.run()


def do_diff(e, unit, tier, rec):
    moments = MOMENTS + [d[:3] for d in MOMENTS]
    rows = [{"id": i + 1, "s": text(d), "u": text(f), "_d": d, "_e": f} for i, (d, f) in enumerate(itertools.product(moments, repeat=2))]
    b = Batch(e, rows, rec)
    for x, y in (("s", "u"), ("datetime(s)", "datetime(u)"), ("datetime(s)", "u"), ("s", "datetime(u)")):
        for name in (unit, unit.lower()):
            b.want("timestampdiff(%s, %s, %s)" % (name, x, y), lambda r: diff(unit, r["_d"], r["_e"]), "timestampdiff " + unit)
    b.want("timestampdiff(%s, date(s), u)" % unit, lambda r: diff(unit, r["_d"][:3], r["_e"]), "timestampdiff of date")
    b.want("timestampdiff(%s, s, date(u))" % unit, lambda r: diff(unit, r["_d"], r["_e"][:3]), "timestampdiff of date")
    b.want("timestampdiff(%s, '2024-02-29', u)" % unit, lambda r: diff(unit, (2024, 2, 29), r["_e"]), "timestampdiff of constant")
    b.want("timestampdiff(%s, x.s, x.u)" % unit if False else "-timestampdiff(%s, u, s)" % unit, lambda r: -diff(unit, r["_e"], r["_d"]), "timestampdiff in expression")
    b.run()


def do_days(e, _, tier, rec):
    moments = MOMENTS + [d[:3] for d in MOMENTS]
    rows = [{"id": i + 1, "s": text(d), "u": text(f), "_d": d, "_e": f} for i, (d, f) in enumerate(itertools.product(moments, repeat=2))]
    b = Batch(e, rows, rec)
    for x, y in itertools.product(FORMS.values(), repeat=2):
        b.want("datediff(%s, %s)" % (x.format("s"), y.format("u")), lambda r: number(r["_d"][:3]) - number(r["_e"][:3]), "datediff")
    b.run()


def do_compare(e, _, tier, rec):
    moments = MOMENTS + [d[:3] for d in MOMENTS]
    rows = [{"id": i + 1, "s": text(d), "u": text(f), "_d": d, "_e": f} for i, (d, f) in enumerate(itertools.product(moments, repeat=2))]
    b = Batch(e, rows, rec)
    ops = {"=": lambda p, q: p == q, "!=": lambda p, q: p != q, "<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q}
    cases = []
    for (fx, x), (fy, y) in itertools.product(FORMS.items(), repeat=2):
        if fx == "text" and fy == "text":
            continue                                # texts are compared as texts
        for op in ops:
            cases.append(("%s %s %s" % (x.format("s"), op, y.format("u")), lambda r, o=ops[op], p=3 if fx in SHORT else 7, q=3 if fy in SHORT else 7: int(o(micros(r["_d"][:p]), micros(r["_e"][:q])))))
    cases.append(("datetime(s) between u and '2024-06-01'", lambda r: int(micros(r["_e"]) <= micros(r["_d"]) <= micros((2024, 6, 1)))))
    cases.append(("date(s) in (u, '2024-02-29')", lambda r: int(micros(r["_d"][:3]) in (micros(r["_e"]), micros((2024, 2, 29))))))
    cases.append(("s + interval 1 day > u", lambda r: int(micros(add(r["_d"], 1, "DAY")) > micros(r["_e"]))))
    for s, f in cases:
        b.want(s, f, "compare " + s)
    b.run()
    for s, f in cases:
        with watchdog(60):
            got = e.query("select id from t where id > 0 and " + s)
        rec.transitions += 1
        rec.expect("where", [r["id"] for r in rows if f(r)], got if isinstance(got, Err) else sorted(r["id"] for r in got), {"where": s}, outcome=("where", s))
        gc.collect()


def do_clock(e, _, tier, rec):
    step = 1 if tier == "thorough" else 61
    seconds = sorted(set(range(0, 86400, step)) | {0, 1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 86401, 90061, 360000, 3020399})
    rows = [{"id": i + 1, "n": n, "s": "%02d:%02d:%02d" % (n // 3600, n // 60 % 60, n % 60)} for i, n in enumerate(seconds)]
    for part in range(0, len(rows), 2000):
        b = Batch(e, rows[part:part + 2000], rec)
        b.want("sec_to_time(n)", lambda r: r["s"])
        b.want("time_to_sec(s)", lambda r: r["n"])
        b.want("time_to_sec(sec_to_time(n))", lambda r: r["n"])
        b.want("sec_to_time(-n)", lambda r: ("-" if r["n"] else "") + r["s"])
        b.want("time_to_sec(time(concat('2024-02-29 ', s)))", lambda r: r["n"] if r["n"] < 86400 else SKIP)
        b.want("time_to_sec(datetime(concat('2024-02-29 ', s)))", lambda r: r["n"] if r["n"] < 86400 else SKIP)
        b.want("time_format(time(concat('2024-02-29 ', s)), '%H:%M:%S')", lambda r: r["s"] if r["n"] < 86400 else SKIP)
        b.run()


def do_time(e, _, tier, rec):
    rows = []
    for d in MOMENTS:
        for days in (0, 1, 30):
            for h, m, s, us in ((0, 0, 0, 0), (0, 0, 1, 0), (1, 2, 3, 0), (23, 59, 59, 999999), (10, 0, 0, 500000), (25, 0, 59, 1)):
                i = "%d:%02d:%02d" % (h, m, s) + (".%06d" % us if us else "")
                rows.append({"id": len(rows) + 1, "s": text(d), "i": "%d %s" % (days, i) if days else i, "_d": d, "_i": (((days * 24 + h) * 60 + m) * 60 + s) * 10 ** 6 + us})
    b = Batch(e, rows, rec)
    for form in forms(MOMENTS):
        x = FORMS[form].format("s")
        for f, sign in (("addtime", 1), ("subtime", -1)):
            b.want("%s(%s, i)" % (f, x), lambda r, k=sign: moment(micros(r["_d"]) + k * r["_i"]), f)
            for i, us in (("'0:0:1'", 10 ** 6), ("'1 1:1:1'", 90061 * 10 ** 6), ("'0:0:0.5'", 500000), ("'0:0:0.000250'", 250), ("'2 10:30'", 58 * 3600 * 10 ** 6 + 1800 * 10 ** 6)):
                b.want("%s(%s, %s)" % (f, x, i), lambda r, k=sign * us: moment(micros(r["_d"]) + k), f)
    b.run()


def do_null(e, _, tier, rec):
    b = Batch(e, [{"id": 1, "s": None, "k": None, "u": "2024-02-29 01:02:03", "x": "no date"}, {"id": 2, "s": None, "k": None, "u": "2024-12-31", "x": "2024-13-01"}], rec)
    for f in list(FIELDS) + ["time_to_sec({})", "datediff({}, u)", "datediff(u, {})", "timestampdiff(DAY, {}, u)", "timestampdiff(MONTH, u, {})", "date_add({}, interval 1 day)", "{} - interval 1 month", "addtime({}, '1:2:3')",
                             "date_format({}, '%Y')", "time_format({}, '%H')", "datetime({}) < u", "date({}) = u", "adddate({}, 3)"]:
        b.want(f.format("s"), lambda r: None, "null: " + f)
        b.want(f.format("x"), lambda r: None, "no date: " + f)
    for f in ("from_unixtime({})", "sec_to_time({})", "date_add(u, interval {} day)", "u - interval {} month", "adddate(u, interval {} hour)"):
        b.want(f.format("k"), lambda r: None, "null: " + f)
    b.run()


def do_places(e, _, tier, rec):
    """dates as keys, conditions, arguments of aggregates, in joins and derived tables"""
    days = [(2024, m, d) for m in (1, 2, 12) for d in range(1, month_days(2024, m) + 1, 3)] + [(2023, 12, 31), (2025, 1, 1)]
    rows = table(days)
    e.clear()
    e.put("t", rows)
    e.put("k", [{"id": r["id"], "n": r["id"] % 5 - 2} for r in rows])

    def q(sql):
        with watchdog(60):
            got = e.query(sql)
        return got if isinstance(got, Err) else [tuple(plain(v) for v in r.values()) for r in got]

    def expect(place, sql, want, ordered=False):
        got = q(sql)
        rec.state(sql)
        rec.transitions += 1
        rec.expect(place, sorted(want, key=str) if not ordered else want, got if isinstance(got, Err) or ordered else sorted(got, key=str), {"query": sql}, sample=sql, outcome=(place, sql))

    def count(f, d=days):
        out = {}
        for x in d:
            out[f(x)] = out.get(f(x), 0) + 1
        return [(k if isinstance(k, tuple) else (k,)) + (n,) for k, n in out.items()]
    for f in FIELDS:
        if f.startswith(("date_format", "time(")):
            continue
        want = FIELDS[f]
        expect("group by", "select %s as v, count(*) as n from t group by %s" % (f.format("s"), f.format("s")), [(k, n) for k, n in [(a, b) for a, b in ((x[:-1][0] if len(x) == 2 else x[:-1], x[-1]) for x in count(want))]])
        expect("distinct", "select count(distinct %s) as n from t" % f.format("s"), [(len({want(d) for d in days}),)])
        v = want(days[7])
        if not isinstance(v, tuple):
            lit = repr(v)
            expect("where", "select id from t where %s = %s" % (f.format("s"), lit), [(r["id"],) for r in rows if want(r["_d"]) == v])
            expect("join", "select a.id as i, count(b.id) as n from t a join t b on %s = %s group by a.id" % (f.format("b.s"), f.format("a.s")), [(r["id"], sum(1 for o in rows if want(o["_d"]) == want(r["_d"]))) for r in rows])
        if "name" not in f:
            expect("max", "select max(%s) as v, min(%s) as w from t" % (f.format("s"), f.format("s")), [(max(want(d) for d in days), min(want(d) for d in days))])
    for unit in UNITS:
        f = lambda r: add(r["_d"], r["id"] % 5 - 2, unit)
        expect("join interval", "select x.id as i, x.s + interval y.n %s as v from t x join k y on x.id = y.id" % unit, [(r["id"], f(r)) for r in rows])
        expect("derived", "select id, v - interval 1 hour as w from (select id, s + interval id %s as v from t) d" % unit, [(r["id"], add(add(r["_d"], r["id"], unit), -1, "HOUR")) for r in rows])
        expect("order", "select s + interval id %s as v from t order by v desc" % unit, sorted([(add(r["_d"], r["id"], unit),) for r in rows], reverse=True), True)
        expect("having", "select id, s + interval id %s as v from t having v > '2024-02-05'" % unit, [(r["id"], add(r["_d"], r["id"], unit)) for r in rows if add(r["_d"], r["id"], unit) > (2024, 2, 5, 0, 0, 0, 0)])
        expect("where interval", "select id from t where s + interval id %s <= '2024-12-20'" % unit, [(r["id"],) for r in rows if micros(add(r["_d"], r["id"], unit)) <= micros((2024, 12, 20))])
        expect("where now", "select id from t where datetime(s) > datetime('2024-12-20') - interval 1 %s" % unit, [(r["id"],) for r in rows if micros(r["_d"]) > micros(add((2024, 12, 20), -1, unit))])
        expect("sum", "select sum(timestampdiff(%s, '2023-06-15', s)) as n, max(s + interval 1 %s) as v from t" % (unit, unit), [(sum(diff(unit, (2023, 6, 15), d) for d in days), max(add(d, 1, unit) for d in days))])
        expect("group interval", "select s - interval 1 %s as v, count(*) as n from t group by s - interval 1 %s" % (unit, unit), [(x[:-1], x[-1]) for x in count(lambda d: add(d, -1, unit))])


def do_zone(e, zone, tier, rec):
    z = zoneinfo.ZoneInfo(zone)
    utc = datetime.timezone.utc
    begin = 1704067200                                       # 2024-01-01
    instants = [begin + n * 86400 // 2 + 1 for n in range(0, 732, 1 if tier == "thorough" else 3)] + [0, 1, 86399, 951782400, 1709168523, 4102444800]
    rows = []
    for n in instants:
        local = datetime.datetime.fromtimestamp(n, utc).astimezone(z)
        # a local time that is there twice is no single instant
        clear = local.replace(fold=0).utcoffset() == local.replace(fold=1).utcoffset()
        rows.append({"id": len(rows) + 1, "n": n, "s": local.strftime("%Y-%m-%d %H:%M:%S") if local.year >= 1000 else text((local.year, local.month, local.day, local.hour, local.minute, local.second)), "_l": plain(local), "_c": clear})
    b = Batch(e, rows, rec)
    b.want("from_unixtime(n)", lambda r: r["_l"])
    b.want("unix_timestamp(from_unixtime(n))", lambda r: r["n"])
    for f in ("s", "datetime(s)", "convert_datetime(s)", "cast(s as datetime)"):
        b.want("unix_timestamp(%s)" % f, lambda r: r["n"] if r["_c"] else SKIP)
        b.want("from_unixtime(n) = %s" % f, lambda r: 1 if r["_c"] else SKIP)
        b.want("datediff(%s, from_unixtime(n))" % f, lambda r: 0)
    b.want("date_format(from_unixtime(n), '%Y-%m-%d %H:%M:%S')", lambda r: r["s"])
    b.want("datetime(s)", lambda r: r["_l"])
    b.want("time(from_unixtime(n))", lambda r: r["_l"][3:])
    b.want("date(from_unixtime(n))", lambda r: r["_l"][:3] + (0, 0, 0, 0))
    b.want("unix_timestamp(date(s))", lambda r: SKIP if not steady(r, z) else midnight(r, z))
    b.want("from_unixtime(n) + interval 1 month", lambda r: add(r["_l"], 1, "MONTH"))
    b.run()


def midnight(r, z):
    return int(datetime.datetime(*r["_l"][:3], tzinfo=z).timestamp())


def steady(r, z):
    d = datetime.datetime(*r["_l"][:3], tzinfo=z)
    return d.replace(fold=0).utcoffset() == d.replace(fold=1).utcoffset()
